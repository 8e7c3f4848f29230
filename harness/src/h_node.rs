//! Handles, attaching and detaching, hydration and defaults, value lifecycle, data portability.
use super::h_core::with_k;
use super::h_core::expected_v;
use super::kit::*;
use core::sync::atomic::{AtomicI32, Ordering::Relaxed};

// ------------------------------------------------------------------------------ C09 handles

struct N<T: Val> {
    n: &'static StorageListNode<T>,
    att: Option<usize>,
    fut: Option<Att<T, 2>>,
    h: Option<Handle<T, 2>>,
    hyd: bool,
    val: Option<V>,
}
impl<T: Val> N<T> {
    fn new(key: &'static str) -> Self {
        N { n: node(key), att: None, fut: None, h: None, hyd: false, val: None }
    }
    fn taken(&self) -> bool {
        self.fut.is_some() || self.h.is_some()
    }
}
/// Two nodes with the same key, two lists; each operation against a model of who owns what.
fn c09(steps: usize, same_key: bool) {
    let mut st: [Store; 2] = [Store::new(), Store::new()];
    let stored = [any_v("stored 0"), any_v("stored 1")];
    for i in 0..2 {
        put_record(&mut st[i], 1, &[data_rec("b", &stored[i]), data_rec("a", &stored[i])]);
    }
    let lists = [new_list::<2>(), new_list::<2>()];
    let mut ns = [N::<V>::new("a"), N::<V>::new(if same_key { "a" } else { "b" })];
    for s in 0..steps {
        // the first effective operation is an attach; which one does not matter by symmetry
        let (op, i, l) = if s == 0 {
            (0, 0, 0)
        } else {
            let o = pick(16, "operation");
            match o {
                0..=3 => (0, (o & 1) as usize, (o >> 1) as usize),
                4..=7 => (1, (o & 1) as usize, (o >> 1 & 1) as usize),
                8..=9 => (2, (o & 1) as usize, 0),
                10..=11 => (3, (o & 1) as usize, 0),
                12..=13 => (4, 0, (o & 1) as usize),
                _ => (5, (o & 1) as usize, 0),
            }
        };
        match op {
            0 => {
                let mut f = begin(ns[i].n, lists[l]);
                let r = poll_att(&mut f);
                let other = &ns[1 - i];
                let want = match ns[i].att {
                    None if same_key && other.att == Some(l) => Some(Error::DuplicateKey),
                    None => None,
                    Some(x) if x != l => Some(Error::NodeInOtherList),
                    Some(_) if ns[i].taken() => Some(Error::AlreadyTaken),
                    Some(_) => None,
                };
                match want {
                    Some(e) => {
                        match r {
                            Some(Err(x)) => check(x == e, "attach fails for the right reason"),
                            _ => check(false, "attach fails when it must"),
                        }
                        reach("attach refused");
                    }
                    None => {
                        ns[i].att = Some(l);
                        match r {
                            Some(Ok(h)) => {
                                check(ns[i].hyd, "a handle exists only for a node that was read");
                                ns[i].h = Some(h);
                                reach("re-attached");
                            }
                            Some(Err(_)) => check(false, "attach succeeds when it may"),
                            None => {
                                check(!ns[i].hyd, "re-attaching a loaded node does not wait");
                                ns[i].fut = Some(f);
                            }
                        }
                    }
                }
            }
            1 => {
                let r = poll1(ns[i].n.detach(lists[l]));
                match ns[i].att {
                    None => check(matches!(r, Some(Ok(()))), "detaching an unattached node succeeds"),
                    Some(x) if x != l => {
                        check(matches!(r, Some(Err(Error::NodeInOtherList))), "detaching from another list is refused")
                    }
                    Some(_) if ns[i].taken() => {
                        check(matches!(r, Some(Err(Error::AlreadyTaken))), "detaching with a live handle is refused");
                        reach("detach refused");
                    }
                    Some(_) => {
                        check(matches!(r, Some(Ok(()))), "detaching without a handle succeeds");
                        ns[i].att = None;
                        ns[i].hyd = false;
                        ns[i].val = None;
                        reach("detached");
                    }
                }
            }
            2 => ns[i].h = None,
            3 => {
                // cancel a waiting attach
                if ns[i].fut.take().is_some() {
                    reach("attach cancelled");
                }
            }
            4 => {
                check(ok(&reads(lists[l], &mut st[l])), "reading succeeds");
                for n in ns.iter_mut() {
                    if n.att == Some(l) && !n.hyd {
                        n.hyd = true;
                        n.val = Some(stored[l]);
                        if let Some(f) = n.fut.take() {
                            n.h = Some(finish(f));
                        }
                    }
                }
            }
            _ => {
                if let Some(h) = ns[i].h.as_mut() {
                    let v = any_v("new");
                    set(h, &v);
                    ns[i].val = Some(v);
                }
            }
        }
        for n in ns.iter_mut() {
            if let Some(f) = n.fut.as_mut() {
                check(poll_att(f).is_none(), "attach waits for a read of its own list");
            }
            if let Some(h) = n.h.as_ref() {
                check(veq(&h.load(), &n.val.unwrap()), "the handle gives the value of its node");
            }
        }
    }
    reach("end");
}
pub fn c09_dup4() { c09(4, true) }
pub fn c09_dup5() { c09(5, true) }
pub fn c09_two4() { c09(4, false) }
pub fn c09_two5() { c09(5, false) }

// ------------------------------------------------------------------------------ C09 during a pass

enum Pend<const K: usize> {
    No,
    Attach(Att<V, K>),
    Detach(Pin<Box<dyn Future<Output = Result<(), Error>>>>),
}
/// While a pass is under way in the storage, a node is attached and detached, and such requests
/// are given up while they wait. The pass goes on or is cancelled.
fn c09_busy_on<const K: usize>(ops: u32) {
    let st: &'static mut Store = Box::leak(Box::new(Store::new()));
    let st: *mut Store = st;
    let s = || unsafe { &mut *st };
    let (av, bv) = (any_v("stored a"), any_v("stored b"));
    put_record(s(), 4, &[data_rec("b", &bv), data_rec("a", &av), data_rec("c", &bv)]);
    let list = new_list::<K>();
    let (na, nb, nc) = (node::<V>("a"), node::<V>("b"), node::<V>("c"));
    let fb = start(nb, list);
    // the node is on the list or not, loaded or not, with a handle or not
    let there = pick(3, "node");
    let fa = if there > 0 { Some(start(na, list)) } else { None };
    check(ok(&reads(list, s())), "reading succeeds");
    let _b = finish(fb);
    let mut h = fa.map(finish);
    let (mut att, mut hyd, mut val) = (there > 0, there > 0, Some(av));
    let kind = pick(3, "pass");
    let mut fc = None;
    if kind == 0 {
        fc = Some(start(nc, list));
    }
    if kind == 2 {
        check(ok(&garbage(list, s())), "collecting succeeds");
        match h.as_mut() {
            Some(h) => {
                let v = any_v("a");
                set(h, &v);
                val = Some(v);
            }
            None => fc = Some(start(nc, list)),
        }
        // a node waiting for its first read asks for that first
        assume(fc.is_none());
    }
    if there == 1 {
        h = None;
    }
    s().faults = Faults::new(F_SLOW, 1);
    let mut pass: Pin<Box<dyn Future<Output = WR>>> = match kind {
        0 => Box::pin(async move {
            let mut buf = [0u8; MAXB];
            Some(list.process_reads(unsafe { &mut *st }, &mut buf).await.map(|_| ()))
        }),
        1 => Box::pin(async move {
            let mut buf = [0u8; MAXB];
            Some(list.process_garbage(unsafe { &mut *st }, &mut buf).await.map(|_| ()))
        }),
        _ => Box::pin(async move {
            let mut buf = [0u8; MAXB];
            Some(list.process_writes(unsafe { &mut *st }, &mut buf).await.map(|_| ()))
        }),
    };
    let mut cx = Context::from_waker(Waker::noop());
    assume(pass.as_mut().poll(&mut cx).is_pending());
    let mut p = Pend::<K>::No;
    let mut unverified = false;
    // whether the node was taken during all of the request
    let mut taken = false;
    macro_rules! detached {
        ($r:expr) => {
            match $r {
                Ok(()) => {
                    check(h.is_none(), "no node is detached under its handle");
                    att = false;
                    hyd = false;
                    val = None;
                    reach("detached");
                }
                Err(e) => check(e == Error::AlreadyTaken && taken, "detaching succeeds if there is no handle"),
            }
        };
    }
    macro_rules! attached {
        ($r:expr) => {
            match $r {
                Ok(x) => {
                    check(h.is_none(), "there is one handle at a time");
                    let mut want = if hyd { val } else { expected_v(s().recs(), "a") };
                    // a cancelled write pass never verified its record: the one before may count
                    if !hyd && unverified && Some(x.load()) == Some(av) {
                        want = Some(av);
                    }
                    check(Some(x.load()) == want, "the value is the one the node has, else the stored one");
                    val = want;
                    att = true;
                    hyd = true;
                    h = Some(x);
                    reach("attached");
                }
                Err(e) => check(e == Error::AlreadyTaken && taken, "attaching succeeds if there is no handle"),
            }
        };
    }
    for _ in 0..ops {
        match pick(4, "request") {
            0 => {
                assume(h.is_some());
                h = None;
                // a waiting request may succeed or not
            }
            1 => {
                assume(matches!(p, Pend::No));
                taken = h.is_some();
                let mut f = Box::pin(na.detach(list));
                match f.as_mut().poll(&mut cx) {
                    Poll::Ready(r) => detached!(r),
                    Poll::Pending => p = Pend::Detach(f),
                }
            }
            2 => {
                assume(matches!(p, Pend::No));
                taken = h.is_some();
                let mut f = begin(na, list);
                match poll_att(&mut f) {
                    Some(r) => attached!(r),
                    None => p = Pend::Attach(f),
                }
            }
            _ => {
                match p {
                    Pend::No => assume(false),
                    Pend::Attach(_) => reach("attach given up"),
                    Pend::Detach(_) => {
                        reach("detach given up");
                    }
                }
                p = Pend::No;
            }
        }
    }
    if flip("cancel the pass") {
        drop(pass);
        unverified = kind == 2;
    } else {
        GO_ON.store(true, Relaxed);
        match pass.as_mut().poll(&mut cx) {
            Poll::Ready(r) => check(ok(&r), "the pass succeeds"),
            Poll::Pending => check(false, "the pass completes"),
        }
    }
    s().faults.off();
    match p {
        Pend::No => {}
        Pend::Detach(mut f) => match f.as_mut().poll(&mut cx) {
            Poll::Ready(r) => detached!(r),
            Poll::Pending => check(false, "detaching does not wait when nothing else happens"),
        },
        Pend::Attach(mut f) => {
            let mut r = poll_att(&mut f);
            if r.is_none() {
                check(!hyd, "attaching a loaded node does not wait");
                check(ok(&reads(list, s())), "reading succeeds");
                r = poll_att(&mut f);
            }
            match r {
                Some(r) => attached!(r),
                None => check(false, "attach completes after a read"),
            }
        }
    }
    // whatever was given up left the node as it was
    if h.is_some() {
        check(matches!(poll_att(&mut begin(na, list)), Some(Err(Error::AlreadyTaken))), "one handle at a time");
        check(poll1(na.detach(list)) == Some(Err(Error::AlreadyTaken)), "no node is detached under its handle");
    } else {
        taken = false;
        let mut f = begin(na, list);
        let mut r = poll_att(&mut f);
        if r.is_none() {
            check(!(att & hyd), "attaching a loaded node does not wait");
            check(ok(&reads(list, s())), "reading succeeds");
            r = poll_att(&mut f);
        }
        match r {
            Some(r) => attached!(r),
            None => check(false, "attach completes after a read"),
        }
    }
    let v = val.unwrap();
    check(veq(&h.as_ref().unwrap().load(), &v), "the handle gives the value of its node");
    drop(fc);
    {
        check(flush(list, s(), 4), "writing succeeds");
        h = None;
        check(poll1(na.detach(list)) == Some(Ok(())), "detaching succeeds if there is no handle");
        let f = start(na, list);
        check(ok(&reads(list, s())), "reading succeeds");
        check(veq(&finish(f).load(), &v), "the value is durable");
    }
    drop(h);
    reach("end");
}
pub fn c09_busy2() { c09_busy_on::<1>(2) }
pub fn c09_busy4() { c09_busy_on::<2>(4) }
pub fn c09_busy6() { c09_busy_on::<1>(6) }

// ------------------------------------------------------------------------------ C18 lifecycle

static LIVE: AtomicI32 = AtomicI32::new(0);
static HEAP: AtomicI32 = AtomicI32::new(0);
/// A value that owns memory and counts its instances.
pub struct Own(Box<[u8; 2]>);
impl Own {
    fn new(b: [u8; 2]) -> Self {
        LIVE.fetch_add(1, Relaxed);
        HEAP.fetch_add(1, Relaxed);
        Own(Box::new(b))
    }
}
impl Clone for Own {
    fn clone(&self) -> Self {
        Own::new(*self.0)
    }
}
impl Default for Own {
    fn default() -> Self {
        Own::new([0, 0])
    }
}
impl PartialEq for Own {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}
impl<C> Encode<C> for Own {
    fn encode<W: minicbor::encode::Write>(
        &self,
        e: &mut minicbor::Encoder<W>,
        _: &mut C,
    ) -> Result<(), minicbor::encode::Error<W::Error>> {
        e.bytes(&self.0[..])?.ok()
    }
}
impl<'b, C> Decode<'b, C> for Own {
    fn decode(d: &mut minicbor::Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        match d.bytes()? {
            [x, y] => Ok(Own::new([*x, *y])),
            _ => Err(minicbor::decode::Error::message("length")),
        }
    }
}
impl<C> CborLen<C> for Own {
    fn cbor_len(&self, _: &mut C) -> usize {
        3
    }
}
/// Every value a node holds exists exactly once, and is dropped exactly once.
fn c18(steps: usize) {
    LIVE.store(0, Relaxed);
    let mut st: Store = Store::new();
    match pick(3, "stored") {
        0 => {}
        1 => put_record(&mut st, 1, &[data_rec("a", &any_v("stored"))]),
        _ => put_record(&mut st, 1, &[data_rec("a", &1u8)]),
    }
    let decodable = st.n > 0 && st.items[1].bytes()[3] == 0x42;
    let l = new_list::<2>();
    let n = node::<Own>("a");
    let (mut fut, mut h): (Option<Att<Own, 2>>, Option<Handle<Own, 2>>) = (None, None);
    // nothing, on the list, waiting for its default, holding a value
    let (mut att, mut read, mut holds) = (false, false, false);
    let mut val = [0u8; 2];
    let mut dirty = false;
    for s in 0..steps {
        let op = if s == 0 { 0 } else { pick(8, "operation") };
        match op {
            0 => {
                assume(fut.is_none() && h.is_none());
                fut = Some(begin(n, l));
                att = true;
            }
            1 => {
                let r = reads(l, &mut st);
                check(ok(&r), "reading succeeds");
                if att && !read {
                    read = true;
                    if let Some(x) = newest(st.recs()) && (decodable || dirty) {
                        holds = true;
                        let b = st.items[x.s + 1].bytes();
                        val = [b[4], b[5]];
                    }
                }
            }
            2 => {
                if let Some(f) = fut.as_mut() {
                    match poll_att(f) {
                        Some(Ok(x)) => {
                            check(read, "attach completes after a read");
                            if !holds {
                                val = [0, 0];
                            }
                            holds = true;
                            h = Some(x);
                            fut = None;
                        }
                        Some(Err(_)) => check(false, "attach succeeds"),
                        None => check(!read, "attach waits only for a read"),
                    }
                }
            }
            3 => fut = None,
            4 => h = None,
            5 => {
                let free = fut.is_none() && h.is_none();
                let r = poll1(n.detach(l));
                if free || !att {
                    check(matches!(r, Some(Ok(()))), "detach succeeds");
                    att = false;
                    read = false;
                    holds = false;
                    reach("detached");
                }
            }
            6 => {
                if let Some(h) = h.as_mut() {
                    val = any_v("new").0;
                    let v = Own::new(val);
                    check(now(h.write(&v)).is_ok(), "write succeeds");
                    reach("overwritten");
                }
            }
            _ => {
                let p0 = st.pushes;
                let r = writes(l, &mut st);
                if needs_gc(&r) {
                    check(ok(&garbage(l, &mut st)), "gc succeeds");
                    let _ = writes(l, &mut st);
                }
                // an empty record forgets what was stored; remember whether it holds a value
                if st.pushes != p0 {
                    assume(holds);
                    dirty = true;
                }
            }
        }
        // an attach that has not been polled yet has not taken the node
        if let Some(f) = fut.as_mut()
            && op == 0
        {
            match poll_att(f) {
                None => check(!read, "attach waits only for a read"),
                Some(Ok(x)) => {
                    check(read, "attach completes after a read");
                    if !holds {
                        val = [0, 0];
                    }
                    holds = true;
                    h = Some(x);
                    fut = None;
                }
                Some(Err(_)) => check(false, "attach succeeds"),
            }
        }
        check(LIVE.load(Relaxed) == holds as i32, "every value exists exactly once");
        if let Some(h) = h.as_ref() {
            let v = h.load();
            check((v.0[0] ^ val[0]) | (v.0[1] ^ val[1]) == 0, "the value is intact");
        }
        check(LIVE.load(Relaxed) == holds as i32, "every value exists exactly once");
    }
    drop(fut);
    drop(h);
    if att {
        check(poll1(n.detach(l)) == Some(Ok(())), "detach succeeds");
    }
    check(LIVE.load(Relaxed) == 0, "detaching drops the value");
    reach("end");
}
pub fn c18_seq5() { c18(5) }
pub fn c18_seq6() { c18(6) }
pub fn c18_seq7() { c18(7) }

// ------------------------------------------------------------------------------ C10 hydration

pub fn begin_def<T: Val, const K: usize>(n: &'static StorageListNode<T>, l: &'static List<K>, d: T) -> Att<T, K> {
    Box::pin(n.attach_with_default(l, move || d))
}
/// Stored value or default; the default is written back; the rest of the list is unaffected.
fn c10_def<const K: usize>(_x: usize) {
    let mut st: Store = Store::new();
    let (sa, sb) = (any_v("stored a"), any_v("stored b"));
    let bad = match pick(3, "bad value") {
        0 => data_rec("a", &any_u8("other type")),
        1 => Rec::data(&[1, 0x61, b'a']),
        _ => Rec::data(&[1, 0x61, b'a', 0x43, 1, 2]),
    };
    let has = match pick(6, "stored") {
        0 => (false, false),
        1 => {
            put_record(&mut st, 9, &[data_rec("a", &sa), data_rec("b", &sb)]);
            (true, true)
        }
        2 => {
            put_record(&mut st, 9, &[data_rec("b", &sb)]);
            (false, true)
        }
        3 => {
            put_record(&mut st, 9, &[bad, data_rec("b", &sb)]);
            (false, true)
        }
        4 => {
            put_record(&mut st, 9, &[data_rec("b", &sb), bad]);
            (false, true)
        }
        _ => {
            // an element whose key does not decode
            put_record(&mut st, 9, &[Rec::data(&[1, 0xff, 0x61, b'a']), data_rec("a", &sa), data_rec("b", &sb)]);
            (true, true)
        }
    };
    let d = (any_v("default a"), any_v("default b"));
    let l = new_list::<K>();
    let (na, nb) = (node::<V>("a"), node::<V>("b"));
    let fs = if flip("order") {
        let fb = begin_def(nb, l, d.1);
        (begin_def(na, l, d.0), fb)
    } else {
        (begin_def(na, l, d.0), begin_def(nb, l, d.1))
    };
    let mut fs = fs;
    check(poll_att(&mut fs.0).is_none() && poll_att(&mut fs.1).is_none(), "attach waits for the read");
    check(ok(&reads(l, &mut st)), "reading succeeds");
    let (a, b) = (finish(fs.0), finish(fs.1));
    let want = (if has.0 { sa } else { d.0 }, if has.1 { sb } else { d.1 });
    check(veq(&a.load(), &want.0), "a: the stored value, else the default");
    check(veq(&b.load(), &want.1), "b: the stored value, else the default");
    let p0 = st.pushes;
    check(flush(l, &mut st, 3), "write succeeds");
    if has == (true, true) {
        check(st.pushes == p0, "loaded values are not written back");
        reach("nothing to write");
    } else {
        check(st.pushes > p0, "a default is written back");
        reach("default written");
    }
    let l = new_list::<K>();
    let fs = (begin_def(node::<V>("a"), l, V([1, 2])), begin_def(node::<V>("b"), l, V([3, 4])));
    let mut fs = fs;
    check(poll_att(&mut fs.0).is_none() && poll_att(&mut fs.1).is_none(), "attach waits for the read");
    check(ok(&reads(l, &mut st)), "reading succeeds");
    let (a, b) = (finish(fs.0), finish(fs.1));
    check(veq(&a.load(), &want.0) & veq(&b.load(), &want.1), "the next boot sees the same values");
    reach("end");
}
pub fn c10_default() { let k = 1 + pick(2, "kept records"); with_k!(k, c10_def, 0) }

/// Once loaded, a value changes only through its handle, whatever the storage holds later.
pub fn c10_stable() {
    let mut st: Store = Store::new();
    let (sa, sb) = (any_v("stored a"), any_v("stored b"));
    put_record(&mut st, 9, &[data_rec("a", &sa), data_rec("b", &sb)]);
    let l = new_list::<2>();
    let fa = start(node::<V>("a"), l);
    check(ok(&reads(l, &mut st)), "reading succeeds");
    let na = finish(fa);
    let mut a = na;
    let mut val = sa;
    if flip("write first") {
        val = any_v("written");
        set(&mut a, &val);
        reach("pending");
    }
    // someone else replaces the contents
    let (ta, tb) = (any_v("other a"), any_v("other b"));
    let q = any_u32("other seq");
    assume(q > 9 && q < u32::MAX);
    put_record(&mut st, q, &[data_rec("a", &ta), data_rec("b", &tb)]);
    if flip("reset") {
        now(l.reset_cache());
        check(ok(&reads(l, &mut st)), "reading succeeds");
        check(veq(&a.load(), &val), "a loaded value is not replaced by a later read");
        let fb = start(node::<V>("b"), l);
        check(ok(&reads(l, &mut st)), "reading succeeds");
        check(veq(&finish(fb).load(), &tb), "a late node gets the newest stored value");
    } else {
        let fb = start(node::<V>("b"), l);
        check(ok(&reads(l, &mut st)), "reading succeeds");
        let b = finish(fb);
        check(veq(&b.load(), &sb) | veq(&b.load(), &tb), "a late node gets a stored value");
    }
    check(veq(&a.load(), &val), "a loaded value is not replaced by a later read");
    reach("end");
}
/// Dropping and re-taking the handle keeps the value and the pending write; detaching forgets it.
pub fn c10_reattach() {
    let mut st: Store = Store::new();
    let sa = any_v("stored a");
    put_record(&mut st, 9, &[data_rec("a", &sa)]);
    let l = new_list::<1>();
    let n = node::<V>("a");
    let fa = start(n, l);
    check(ok(&reads(l, &mut st)), "reading succeeds");
    let mut a = finish(fa);
    let v = any_v("written");
    set(&mut a, &v);
    drop(a);
    match pick(3, "then") {
        0 => {
            check(flush(l, &mut st, 3), "a pending value is written without a handle");
            let mut f = begin(n, l);
            match poll_att(&mut f) {
                Some(Ok(h)) => check(veq(&h.load(), &v), "re-attaching keeps the value"),
                _ => check(false, "re-attaching succeeds"),
            }
            reach("flushed");
        }
        1 => {
            let mut f = begin(n, l);
            match poll_att(&mut f) {
                Some(Ok(h)) => check(veq(&h.load(), &v), "re-attaching keeps the value"),
                _ => check(false, "re-attaching succeeds"),
            }
            check(flush(l, &mut st, 3), "the pending value is still written");
            reach("kept");
        }
        _ => {
            check(poll1(n.detach(l)) == Some(Ok(())), "detach succeeds");
            let f = start(n, l);
            check(ok(&reads(l, &mut st)), "reading succeeds");
            check(veq(&finish(f).load(), &sa), "after a detach the stored value is read again");
            reach("detached");
            return;
        }
    }
    let bt = boot2::<1, 48>(&mut st).expect("boot");
    check(veq(&bt.a.load(), &v), "the value is durable");
    reach("end");
}
/// Between the read that decided a node's value and the moment its attach continues, anything may
/// happen: passes, other nodes, giving up the attach, detaching and attaching elsewhere.
fn c10_pend<const K: usize>(steps: usize) {
    let mut st: Store = Store::new();
    let sa = any_v("stored a");
    let so = any_v("stored o");
    match pick(3, "stored") {
        0 => put_record(&mut st, 9, &[data_rec("o", &so)]),
        1 => put_record(&mut st, 9, &[data_rec("o", &so), data_rec("a", &sa)]),
        _ => put_record(&mut st, 9, &[Rec::data(&[1, 0x61, b'a', 0x43, 1, 2]), data_rec("o", &so)]),
    }
    let mut st2: Store = Store::new();
    let sb = any_v("stored elsewhere");
    let there = flip("stored elsewhere too");
    if there {
        put_record(&mut st2, 2, &[data_rec("a", &sb)]);
    }
    let (d, e) = (any_v("default"), any_v("default of the second attach"));
    let (l, l2) = (new_list::<K>(), new_list::<K>());
    let (a, o) = (node::<V>("a"), node::<V>("o"));
    let (mut f, fo) = (begin_def(a, l, d), start(o, l));
    check(poll_att(&mut f).is_none(), "attach waits for the read");
    let mut want = expected_v(st.recs(), "a");
    check(ok(&reads(l, &mut st)), "reading succeeds");
    let mut ho = finish(fo);
    let mut vo = so;
    check(ok(&garbage(l, &mut st)), "gc succeeds");
    // `want`: what the node's value has been decided to be, `None`: the default
    let mut f = Some(f);
    for _ in 0..steps {
        match pick(7, "meanwhile") {
            0 => {
                vo = any_v("other");
                set(&mut ho, &vo);
                check(flush(l, &mut st, 3), "writing succeeds");
                reach("written meanwhile");
            }
            1 => check(ok(&reads(l, &mut st)), "reading succeeds"),
            6 => {
                // the default is not a change before the attach has completed
                assume(f.is_some());
                let p = (st.pushes, st.reads, st.pops);
                check(ok(&garbage(l, &mut st)), "gc succeeds");
                let q = (st.pushes, st.reads, st.pops);
                check(ok(&writes(l, &mut st)), "writing succeeds");
                check(q == (st.pushes, st.reads, st.pops), "nothing changed, nothing is written");
                if p == q {
                    reach("nothing to do");
                }
            }
            2 => {
                now(l.reset_cache());
                check(ok(&reads(l, &mut st)), "reading succeeds");
                check(ok(&garbage(l, &mut st)), "gc succeeds");
            }
            3 => {
                // given up, and attached again
                assume(f.is_some());
                f = None;
                let mut g = begin_def(a, l, e);
                match poll_att(&mut g) {
                    Some(Ok(h)) => check(veq(&h.load(), &want.unwrap_or(e)), "an attach after one that was given up"),
                    _ => check(false, "re-attaching a loaded node succeeds"),
                }
                want = Some(want.unwrap_or(e));
                reach("attached again");
            }
            4 => {
                // given up, detached, attached again: the storage decides once more
                assume(f.is_some());
                f = None;
                check(poll1(a.detach(l)) == Some(Ok(())), "detaching succeeds");
                want = expected_v(st.recs(), "a");
                f = Some(begin_def(a, l, d));
                check(poll_att(f.as_mut().unwrap()).is_none(), "attach waits for the read");
                check(ok(&reads(l, &mut st)), "reading succeeds");
                reach("detached");
            }
            _ => {
                // given up, detached, attached to another list
                f = None;
                check(poll1(a.detach(l)) == Some(Ok(())), "detaching succeeds");
                let mut g = begin_def(a, l2, e);
                check(poll_att(&mut g).is_none(), "attach to the other list waits for its read");
                check(ok(&reads(l2, &mut st2)), "reading succeeds");
                let h = finish(g);
                check(veq(&h.load(), if there { &sb } else { &e }), "the other list's stored value, else the default");
                check(flush(l, &mut st, 3) && flush(l2, &mut st2, 3), "writing succeeds");
                let bt = boot2::<1, 48>(&mut st2).expect("boot");
                check(veq(&bt.a.load(), if there { &sb } else { &e }), "the value is durable");
                check(veq(&ho.load(), &vo), "the other node keeps its value");
                reach("moved");
                return;
            }
        }
    }
    let w = match f {
        Some(g) => {
            let h = finish(g);
            check(veq(&h.load(), &want.unwrap_or(d)), "the stored value, else the default");
            want.unwrap_or(d)
        }
        None => want.unwrap(),
    };
    check(flush(l, &mut st, 3), "writing succeeds");
    check(veq(&ho.load(), &vo), "the other node keeps its value");
    let x = newest(st.recs()).unwrap();
    check(holds(st.recs(), &x, &data_rec("a", &w)), "the stored value or the default is durable");
    check(holds(st.recs(), &x, &data_rec("o", &vo)), "the other value is durable");
    reach("end");
}
pub fn c10_pending2() { let k = 1 + pick(2, "kept records"); with_k!(k, c10_pend, 2) }
pub fn c07_pending() { c10_pend::<1>(2) }
pub fn c10_pending3() { c10_pend::<1>(3) }
pub fn c10_pending_deep() { let k = 1 + pick(3, "kept records"); with_k!(k, c10_pend, 5) }
/// An attach goes on while a pass is under way in the storage (and perhaps cancelled then).
fn c10_busy_on<const K: usize>(_x: usize) {
    let st: &'static mut Store = Box::leak(Box::new(Store::new()));
    let st: *mut Store = st;
    let s = || unsafe { &mut *st };
    let (av, bv, def) = (any_v("stored a"), any_v("stored b"), any_v("default b"));
    let there = flip("b is stored");
    let (da, db) = (data_rec("a", &av), data_rec("b", &bv));
    if there {
        put_record(s(), 4, &[da, db]);
    } else {
        put_record(s(), 4, &[da]);
    }
    let mut want = if there { bv } else { def };
    let (mut late, mut alt) = (false, want);
    let list = new_list::<K>();
    let (na, nb) = (node::<V>("a"), node::<V>("b"));
    let fa = start(na, list);
    let early = flip("attached before the first read");
    let mut fb = None;
    let attach = |fb: &mut Option<Att<V, K>>| {
        let mut f = begin_def(nb, list, def);
        check(poll_att(&mut f).is_none(), "attach waits for the read");
        *fb = Some(f);
    };
    if early {
        attach(&mut fb);
    }
    check(ok(&reads(list, s())), "reading succeeds");
    let mut a = finish(fa);
    let kind = pick(3, "pass");
    let mut val = av;
    if kind == 2 {
        check(ok(&garbage(list, s())), "collecting succeeds");
        val = any_v("a");
        set(&mut a, &val);
    }
    if !early && flip("attached before the pass") {
        attach(&mut fb);
    }
    s().faults = Faults::new(F_SLOW, 1);
    let mut pass: Pin<Box<dyn Future<Output = WR>>> = match kind {
        0 => Box::pin(async move {
            let mut buf = [0u8; MAXB];
            Some(list.process_reads(unsafe { &mut *st }, &mut buf).await.map(|_| ()))
        }),
        1 => Box::pin(async move {
            let mut buf = [0u8; MAXB];
            Some(list.process_garbage(unsafe { &mut *st }, &mut buf).await.map(|_| ()))
        }),
        _ => Box::pin(async move {
            let mut buf = [0u8; MAXB];
            Some(list.process_writes(unsafe { &mut *st }, &mut buf).await.map(|_| ()))
        }),
    };
    let mut cx = Context::from_waker(Waker::noop());
    assume(pass.as_mut().poll(&mut cx).is_pending());
    let mut hb = None;
    match fb.as_mut() {
        None => {
            let mut f = begin_def(nb, list, def);
            check(poll_att(&mut f).is_none(), "attach waits for the read");
            fb = Some(f);
            late = true;
            reach("attached during a pass");
        }
        Some(f) => {
            if flip("polled") && let Some(r) = poll_att(f) {
                match r {
                    Ok(h) => {
                        check(veq(&h.load(), &want), "the stored value, else the default");
                        hb = Some(h);
                    }
                    Err(_) => check(false, "attach succeeds"),
                }
                fb = None;
                reach("completed during a pass");
            } else {
                reach("waits during a pass");
            }
        }
    }
    let cancelled = flip("cancel the pass");
    if cancelled {
        drop(pass);
    } else {
        GO_ON.store(true, Relaxed);
        match pass.as_mut().poll(&mut cx) {
            // a collection leaves the mutex alone meanwhile: the attach may have come first
            Poll::Ready(r) => check(ok(&r), "the pass succeeds"),
            Poll::Pending => check(false, "the pass completes"),
        }
    }
    s().faults.off();
    for _ in 0..3 {
        let Some(f) = fb.as_mut() else { break };
        match poll_att(f) {
            Some(Ok(h)) => {
                let v = h.load();
                check(veq(&v, &want) || veq(&v, &alt), "the stored value, else the default");
                want = v;
                hb = Some(h);
                fb = None;
            }
            Some(Err(_)) => check(false, "attach succeeds"),
            None => {
                if late {
                    // a write pass suspended at that moment does not know this node: its record
                    // leaves the key out, and that record is what the next read finds
                    want = expected_v(s().recs(), "b").unwrap_or(def);
                    // a cancelled pass never verified its record: the one before may still count
                    if !cancelled {
                        alt = want;
                    }
                }
                check(ok(&reads(list, s())), "reading succeeds")
            }
        }
    }
    check(hb.is_some(), "a read completes the attach");
    check(veq(&a.load(), &val), "the other node keeps its value");
    check(flush(list, s(), 4), "writing succeeds");
    let x = newest(s().recs()).unwrap();
    check(holds(s().recs(), &x, &data_rec("a", &val)), "the other value is durable");
    check(holds(s().recs(), &x, &data_rec("b", &want)), "the stored value or the default is durable");
    reach("end");
}
pub fn c10_busy() { let k = 1 + pick(2, "kept records"); with_k!(k, c10_busy_on, 0) }
/// Any number of nodes up to 5 in any attach order: each gets its own stored value.
pub fn c10_many() {
    const KEYS: [&str; 5] = ["a", "b", "ab", "", "a/b"];
    let mut st: Store = Store::new();
    let mut vals = [V::default(); 5];
    let mut recs = [Rec::Junk; 5];
    for i in 0..5 {
        vals[i] = any_v("stored");
        recs[i] = data_rec(KEYS[i], &vals[i]);
    }
    put_record(&mut st, 3, &recs);
    let l = new_list::<2>();
    let mut left = [true; 5];
    let mut hs: [Option<Handle<V, 2>>; 5] = [const { None }; 5];
    let mut waiting: [Option<Att<V, 2>>; 5] = [const { None }; 5];
    for _ in 0..3 {
        let i = pick(5, "which") as usize;
        assume(left[i]);
        left[i] = false;
        waiting[i] = Some(start(node::<V>(KEYS[i]), l));
        if flip("read now") {
            check(ok(&reads(l, &mut st)), "reading succeeds");
            for j in 0..5 {
                if let Some(f) = waiting[j].take() {
                    hs[j] = Some(finish(f));
                }
            }
        }
    }
    check(ok(&reads(l, &mut st)), "reading succeeds");
    for j in 0..5 {
        if let Some(f) = waiting[j].take() {
            hs[j] = Some(finish(f));
        }
        if let Some(h) = hs[j].as_ref() {
            check(veq(&h.load(), &vals[j]), "every node gets the value of its own key");
            check(h.key() == KEYS[j], "the handle knows its key");
        }
    }
    reach("end");
}

// ------------------------------------------------------------------------------ C19 portability

macro_rules! cfg_ty {
    ($n:ident { $($(#[$a:meta])* $i:ident : $t:ty),* }) => {
        #[derive(Encode, Decode, CborLen, Clone, Copy, PartialEq, Default, Debug)]
        pub struct $n { $($(#[$a])* pub $i: $t),* }
    };
}
cfg_ty!(V1 { #[n(1)] x: u8, #[n(2)] y: bool });
cfg_ty!(V1Opt { #[n(1)] x: u8, #[n(2)] y: bool, #[n(3)] z: Option<u16> });
cfg_ty!(V1Def { #[n(1)] x: u8, #[n(2)] y: bool, #[n(3)] #[cbor(default)] z: u16 });
cfg_ty!(V1Must { #[n(1)] x: u8, #[n(2)] y: bool, #[n(3)] z: u16 });
cfg_ty!(V1Less { #[n(1)] x: u8 });

/// The storage, and the list if the schema changes without a reboot.
struct Dev {
    st: Store,
    same: Option<&'static List<2>>,
}
impl Dev {
    fn list(&self) -> &'static List<2> {
        self.same.unwrap_or_else(new_list::<2>)
    }
    fn attach<T: Val>(&mut self, l: &'static List<2>, d: T) -> (Three<T>, (Handle<T, 2>, Handle<V, 2>, Handle<V, 2>)) {
        let n = (node::<T>("cfg"), node::<V>("o"), node::<V>("p"));
        // other nodes that must stay unaffected, stored before and after it
        let fo = start(n.1, l);
        let mut f = begin_def(n.0, l, d);
        check(poll_att(&mut f).is_none(), "attach waits for the read");
        let fp = start(n.2, l);
        check(ok(&reads(l, &mut self.st)), "reading succeeds");
        let h = (finish(f), finish(fo), finish(fp));
        (n, h)
    }
    fn leave<T: Val>(&self, l: &'static List<2>, n: Three<T>) {
        if self.same.is_some() {
            let r = (poll1(n.0.detach(l)), poll1(n.1.detach(l)), poll1(n.2.detach(l)));
            check(r == (Some(Ok(())), Some(Ok(())), Some(Ok(()))), "detaching succeeds");
        }
    }
}
type Three<T> = (&'static StorageListNode<T>, &'static StorageListNode<V>, &'static StorageListNode<V>);
fn load_as<T: Val>(st: &mut Dev, d: T) -> T {
    let l = st.list();
    let (n, h) = st.attach(l, d);
    check(veq(&h.1.load(), &V([5, 6])), "the other value is unaffected");
    check(veq(&h.2.load(), &V([7, 8])), "the other value is unaffected");
    let v = h.0.load();
    drop(h);
    st.leave(l, n);
    v
}
fn store_as<T: Val>(st: &mut Dev, v: &T) {
    let l = st.list();
    let (n, mut h) = st.attach(l, T::default());
    set(&mut h.0, v);
    set(&mut h.1, &V([5, 6]));
    set(&mut h.2, &V([7, 8]));
    check(flush(l, &mut st.st, 3), "writing succeeds");
    drop(h);
    st.leave(l, n);
}
cfg_ty!(V1Type { #[n(1)] x: bool, #[n(2)] y: bool });
cfg_ty!(V1Renum { #[n(1)] x: u8, #[n(3)] y: bool });
cfg_ty!(V1Wide { #[n(1)] x: u32, #[n(2)] y: bool });
cfg_ty!(V1Gap { #[n(1)] x: u8, #[n(5)] w: Option<u8>, #[n(7)] #[cbor(default)] v: u8 });
#[derive(Encode, Decode, CborLen, Clone, Copy, PartialEq, Debug)]
pub enum E1 {
    #[n(0)] Off,
    #[n(1)] On(#[n(0)] u8),
}
impl Default for E1 { fn default() -> Self { E1::Off } }
#[derive(Encode, Decode, CborLen, Clone, Copy, PartialEq, Debug)]
pub enum E2 {
    #[n(0)] Off,
    #[n(1)] On(#[n(0)] u8),
    #[n(2)] Auto,
}
impl Default for E2 { fn default() -> Self { E2::Off } }
pub fn c19_schema() {
    let same = if flip("without a reboot") { Some(new_list::<2>()) } else { None };
    let mut st = Dev { st: Store::new(), same };
    let (x, y, z) = (any_u8("x"), any_bool("y"), any_u16("z"));
    match pick(13, "change") {
        0 => {
            store_as(&mut st, &V1 { x, y });
            let g = load_as(&mut st, V1Opt::default());
            check(g.x == x && g.y == y && g.z.is_none(), "an added optional field is absent");
        }
        1 => {
            store_as(&mut st, &V1 { x, y });
            let g = load_as(&mut st, V1Def { x: 77, y: false, z: 78 });
            check(g.x == x && g.y == y && g.z == 0, "an added defaulted field has its default");
        }
        2 => {
            store_as(&mut st, &V1 { x, y });
            let d = V1Must { x: 77, y: true, z };
            let g = load_as(&mut st, d);
            check(g.x == 77 && g.y && g.z == z, "an added mandatory field means the default");
        }
        3 => {
            store_as(&mut st, &V1 { x, y });
            let g = load_as(&mut st, V1Less { x: 77 });
            check(g.x == x, "a removed field is skipped");
        }
        4 => {
            store_as(&mut st, &V1Must { x, y, z });
            let g = load_as(&mut st, V1 { x: 77, y: false });
            check(g.x == x && g.y == y, "a removed trailing field is skipped");
        }
        5 => {
            let z = if flip("some") { Some(z) } else { None };
            store_as(&mut st, &V1Opt { x, y, z });
            let g = load_as(&mut st, V1Def { x: 77, y: false, z: 78 });
            check(g.x == x && g.y == y, "an optional field made mandatory with a default");
            check(g.z == z.unwrap_or(0), "the optional value carries over");
        }
        6 => {
            store_as(&mut st, &V1 { x, y });
            let g = load_as(&mut st, V1Type { x: true, y: false });
            check(g.x && !g.y, "a field of another type means the default");
        }
        7 => {
            store_as(&mut st, &V1 { x, y });
            let g = load_as(&mut st, V1Renum { x: 77, y: !y });
            check(g.x == 77 && g.y == !y, "a renumbered mandatory field means the default");
        }
        8 => {
            store_as(&mut st, &V1 { x, y });
            let g = load_as(&mut st, V1Wide { x: 1, y: false });
            check(g.x == x as u32 && g.y == y, "a widened field keeps its value");
        }
        9 => {
            store_as(&mut st, &V1Gap { x, w: Some(z as u8), v: (z >> 8) as u8 });
            let g = load_as(&mut st, V1Opt { x: 77, y: true, z: None });
            check(g.x == 77 && g.y && g.z.is_none(), "a mandatory field that was never stored means the default");
            let g = load_as(&mut st, V1Less { x: 77 });
            check(g.x == x, "removed fields with gaps in between are skipped");
        }
        10 => {
            let e = if flip("on") { E1::On(x) } else { E1::Off };
            store_as(&mut st, &e);
            let g = load_as(&mut st, E2::Auto);
            let same = match (e, g) {
                (E1::On(a), E2::On(b)) => a == b,
                (E1::Off, E2::Off) => true,
                _ => false,
            };
            check(same, "an enum with an added variant keeps the value");
        }
        11 => {
            store_as(&mut st, &E2::Auto);
            let g = load_as(&mut st, E1::On(x));
            check(g == E1::On(x), "a removed variant means the default");
        }
        _ => {
            // upgraded, written back, downgraded
            store_as(&mut st, &V1 { x, y });
            let g = load_as(&mut st, V1Opt::default());
            store_as(&mut st, &V1Opt { z: Some(z), ..g });
            let g = load_as(&mut st, V1 { x: 77, y: false });
            check(g.x == x && g.y == y, "values survive an upgrade and a downgrade");
        }
    }
    reach("end");
}
