//! Write verification, gating, retrying, transient read faults, limits, counters, value lifecycle.
use super::h_core::{any_records, any_slot, check_kept, distinct_seqs, expected_v, with_k};
use super::h_elem::Log;
use super::kit::*;
use core::sync::atomic::Ordering::Relaxed;

// ------------------------------------------------------------------------------ C06 verification

/// The storage reports success but stored something else.
fn c06<const K: usize>(mask: u32, budget: u32, preload: bool) {
    let mut st: Store = Store::new();
    let mut old = (V::default(), V::default());
    if preload {
        old = (any_v("a0"), any_v("b0"));
        put_record(&mut st, 7, &[data_rec("b", &old.1), data_rec("a", &old.0)]);
    }
    let mut bt = boot2::<K, 48>(&mut st).expect("boot");
    check(ok(&garbage(bt.list, &mut st)), "gc succeeds");
    let new = (any_v("a"), any_v("b"));
    set(&mut bt.a, &new.0);
    set(&mut bt.b, &new.1);
    st.faults = Faults::new(mask, budget);
    let r = writes(bt.list, &mut st);
    st.faults.off();
    if ok(&r) {
        check(!st.faults.lied, "a write that was not stored as given is not reported as successful");
        reach("clean");
    } else {
        check(
            st.faults.lied | (st.faults.fired & (F_READ_ERR | F_PUSH_EXTRA) != 0),
            "a faithfully stored write is reported as successful",
        );
        if st.faults.lied | (st.faults.fired & F_PUSH_EXTRA != 0) {
            reach("lie detected");
            if st.faults.fired & F_READ_ERR != 0 {
                reach("lie and unreadable");
            }
        }
        check(veq(&bt.a.load(), &new.0) & veq(&bt.b.load(), &new.1), "values are kept after a failed verification");
        if flip("reboot") {
            // leftovers whose contents differ but whose CRC happens to be right are beyond detection
            if let Some(x) = newest(st.recs()) {
                assume(x.seq == 7 || (holds(st.recs(), &x, &data_rec("a", &new.0)) & holds(st.recs(), &x, &data_rec("b", &new.1))));
            }
            let bt = boot2::<K, 48>(&mut st).expect("boot");
            let got = (bt.a.load(), bt.b.load());
            check(
                (veq(&got.0, &old.0) & veq(&got.1, &old.1)) | (veq(&got.0, &new.0) & veq(&got.1, &new.1)),
                "after a failed verification a boot sees a complete set",
            );
            return;
        }
        check(flush(bt.list, &mut st, 4), "the values can still be written after a failed verification");
    }
    let bt = boot2::<K, 48>(&mut st).expect("boot");
    check(veq(&bt.a.load(), &new.0) & veq(&bt.b.load(), &new.1), "a confirmed write is what the next boot sees");
}
const LIES: u32 = F_PUSH_DROP | F_PUSH_CORRUPT | F_PUSH_FLIP;
pub fn c06_lie() { c06::<2>(LIES, 1, true) }
/// What was stored cannot be read back completely either.
pub fn c06_unreadable() { c06::<1>(F_PUSH_DROP | F_PUSH_CORRUPT | F_READ_ERR, 2, true) }
/// Something undecodable is stored next to an element, or an element is stored twice.
pub fn c06_extra() { c06::<2>(F_PUSH_EXTRA, 1, true) }
pub fn c06_extra2() { c06::<1>(F_PUSH_EXTRA | F_PUSH_DROP, 2, true) }
pub fn c06_fresh() { c06::<1>(LIES, 1, false) }
pub fn c06_drops() { c06::<2>(F_PUSH_DROP | F_PUSH_CORRUPT, 4, true) }
/// Lies in the first of two writes: the second one must not be confused by the leftovers.
pub fn c06_twice() {
    let mut st: Store = Store::new();
    let mut bt = boot2::<2, 48>(&mut st).expect("boot");
    let mut last = (V::default(), V::default());
    st.faults = Faults::new(F_PUSH_DROP | F_PUSH_CORRUPT, 2);
    for _ in 0..2 {
        last = (any_v("a"), any_v("b"));
        set(&mut bt.a, &last.0);
        set(&mut bt.b, &last.1);
        st.faults.lied = false;
        let mut r = writes(bt.list, &mut st);
        if needs_gc(&r) {
            let _ = garbage(bt.list, &mut st);
            r = writes(bt.list, &mut st);
        }
        check(ok(&r) == !st.faults.lied, "a write is reported as successful exactly if it was stored");
        if ok(&r) {
            let x = newest(st.recs());
            match x {
                Some(x) => check(
                    holds(st.recs(), &x, &data_rec("a", &last.0)) & holds(st.recs(), &x, &data_rec("b", &last.1)),
                    "a confirmed write is the newest record",
                ),
                None => check(false, "a confirmed write is the newest record"),
            }
            reach("confirmed");
        } else {
            reach("lie detected");
        }
    }
    st.faults.off();
    check(flush(bt.list, &mut st, 4), "the values can still be written");
    let bt = boot2::<2, 48>(&mut st).expect("boot");
    check(veq(&bt.a.load(), &last.0) & veq(&bt.b.load(), &last.1), "the next boot sees the last values");
}

// ------------------------------------------------------------------------------ C07 gating

/// Sequences of operations against a model of when each may touch the storage.
fn c07<const K: usize>(steps: usize) {
    let mut st: Store = Store::new();
    let mut val = V::default();
    match pick(3, "stored before") {
        0 => {}
        1 => {
            val = any_v("a0");
            put_record(&mut st, 3, &[data_rec("a", &val)]);
        }
        _ => {
            st.put(Rec::Start(5));
            st.put(Rec::Junk);
        }
    }
    let list = new_list::<K>();
    let mut fut = Some(start(node::<V>("a"), list));
    let mut h: Option<Handle<V, K>> = None;
    let (mut scanned, mut gc, mut pending) = (false, false, false);
    for _ in 0..steps {
        let (n0, p0, r0, d0) = (st.n, st.pushes, st.reads, st.pops);
        match pick(5, "operation") {
            0 => {
                check(ok(&reads(list, &mut st)), "reading succeeds");
                check(st.pushes == p0 && st.pops == d0 && st.n == n0, "reading changes nothing");
                if !scanned {
                    scanned = true;
                    gc = st.n > 0;
                }
                if let Some(f) = fut.take() {
                    h = Some(finish(f));
                    if newest(st.recs()).is_none() {
                        // nothing stored: the default, to be written back
                        pending = true;
                        val = V::default();
                    }
                }
            }
            1 => {
                let none = newest(st.recs()).is_none();
                let r = writes(list, &mut st);
                if !scanned || h.is_none() {
                    check(
                        needs_read(&r) || (gc && needs_gc(&r)),
                        "writing before reading asks for a read",
                    );
                    check(st.pushes == p0 && st.pops == d0, "a refused write does not touch the storage");
                    reach("needs read");
                } else if gc {
                    check(needs_gc(&r), "writing before collecting asks for a collection");
                    check(st.pushes == p0 && st.pops == d0, "a refused write does not touch the storage");
                    reach("needs gc");
                } else if pending || none {
                    check(ok(&r), "writing succeeds");
                    check(st.n == n0 + 3, "one record is appended");
                    match newest(st.recs()) {
                        Some(x) => check(x.s == n0 && holds(st.recs(), &x, &data_rec("a", &val)), "the value is in the newest record"),
                        None => check(false, "the value is in the newest record"),
                    }
                    gc = true;
                    pending = false;
                    reach("wrote");
                } else {
                    check(ok(&r), "writing nothing succeeds");
                    check(st.pushes == p0 && st.pops == d0 && st.reads == r0, "writing nothing does not touch the storage");
                    reach("unchanged");
                }
            }
            2 => {
                check(ok(&garbage(list, &mut st)), "collecting succeeds");
                if !gc {
                    check(st.pops == d0 && st.reads == r0, "collecting nothing does not touch the storage");
                }
                check(st.pushes == p0, "collecting writes nothing");
                gc = false;
            }
            3 => {
                now(list.reset_cache());
                check(st.reads == r0 && st.pushes == p0 && st.pops == d0, "resetting does no i/o");
                scanned = false;
                gc = false;
                if flip("wiped") {
                    st.n = 0;
                    reach("wiped");
                }
            }
            _ => {
                if let Some(h) = h.as_mut() {
                    val = any_v("a");
                    set(h, &val);
                    pending = true;
                    check(st.reads == r0 && st.pushes == p0 && st.pops == d0, "setting a value does no i/o");
                }
            }
        }
        if let Some(h) = h.as_ref() {
            check(veq(&h.load(), &val), "the value in memory is the last one set");
        }
    }
    reach("end");
}
pub fn c07_seq4() { c07::<2>(4) }
pub fn c07_seq5() { c07::<2>(5) }
pub fn c07_seq6() { let k = 1 + pick(2, "kept records"); with_k!(k, c07, 6) }
/// Whatever fails or is cancelled: a write pass pushes only after a complete read of all attached
/// nodes and, if there was or is anything in the storage, a complete collection.
fn c07_faults<const K: usize>(steps: usize, mask: u32) {
    let mut st: Store = Store::new();
    let mut val = [V::default(); 2];
    match pick(3, "stored before") {
        0 => {}
        1 => {
            val = [V([3, 4]), V([1, 2])];
            put_record(&mut st, 3, &[data_rec("b", &V([1, 2])), data_rec("a", &V([3, 4]))]);
        }
        _ => {
            val[0] = V([3, 4]);
            put_record(&mut st, 3, &[data_rec("a", &V([3, 4]))]);
            st.put(Rec::Start(4));
        }
    }
    let list = new_list::<K>();
    let mut f = [Some(start(node::<V>("a"), list)), Some(start(node::<V>("b"), list))];
    let mut h: [Option<Handle<V, K>>; 2] = [None, None];
    // what must have happened before the next push
    let (mut must_scan, mut must_collect) = (true, st.n > 0);
    st.faults = Faults::new(mask, 1);
    for _ in 0..steps {
        let (p0, n0) = (st.pushes, st.n);
        let must_read = must_scan;
        match pick(4, "operation") {
            0 => {
                if ok(&reads(list, &mut st)) {
                    must_scan = false;
                }
            }
            1 => {
                if ok(&garbage(list, &mut st)) {
                    must_scan = false;
                    must_collect = false;
                }
            }
            2 => {
                let short = flip("short buffer");
                let mut buf = [0u8; MAXB];
                let r: WR = poll1(list.process_writes(&mut st, &mut buf[..if short { 4 } else { MAXB }]))
                    .map(|r| r.map(|_| ()));
                if st.pushes != p0 {
                    check(!must_read, "a write touches the storage only after a read");
                    check(!must_collect | (n0 == 0), "a write touches the storage only after a collection");
                    must_collect = true;
                    if ok(&r) {
                        // whether or not its attach has completed, a node is loaded before
                        match newest(st.recs()) {
                            Some(x) => check(
                                holds(st.recs(), &x, &data_rec("a", &val[0])) & holds(st.recs(), &x, &data_rec("b", &val[1])),
                                "a write before all nodes are loaded does not succeed",
                            ),
                            None => check(false, "a confirmed write is the newest record"),
                        }
                    } else {
                        reach("write failed");
                    }
                    reach("pushed");
                } else if must_read {
                    check(!ok(&r), "a write before a read does not succeed");
                }
            }
            _ => {
                let i = pick(2, "node") as usize;
                assume(h[i].is_some());
                val[i] = V([any_u8("value"), 0]);
                set(h[i].as_mut().unwrap(), &val[i]);
            }
        }
        for i in 0..2 {
            if let Some(x) = f[i].as_mut()
                && let Some(Ok(x)) = poll_att(x)
            {
                f[i] = None;
                h[i] = Some(x);
            }
        }
    }
    reach("end");
}
pub fn c07_fault5() { c07_faults::<2>(5, ANY) }
pub fn c07_fault6() { c07_faults::<1>(6, ANY) }
pub fn c07_fault6_lies() { c07_faults::<1>(6, ANY | F_PUSH_DROP | F_PUSH_CORRUPT) }
fn c07_late<const K: usize>(_x: usize) {
    // a node attached later blocks writes until it has been read
    let mut st: Store = Store::new();
    let (a0, b0) = (any_v("a0"), any_v("b0"));
    put_record(&mut st, 1, &[data_rec("b", &b0), data_rec("a", &a0)]);
    let list = new_list::<K>();
    let fa = start(node::<V>("a"), list);
    check(ok(&reads(list, &mut st)), "reading succeeds");
    let mut a = finish(fa);
    check(ok(&garbage(list, &mut st)), "collecting succeeds");
    let fb = start(node::<V>("b"), list);
    let a1 = any_v("a");
    set(&mut a, &a1);
    let p0 = st.pushes;
    let r = writes(list, &mut st);
    check(needs_read(&r) && st.pushes == p0, "a write waits for the read a new node needs");
    check(ok(&reads(list, &mut st)), "reading succeeds");
    let b = finish(fb);
    check(veq(&b.load(), &b0), "the late node gets its stored value");
    check(flush(list, &mut st, 3), "then the write succeeds");
    let bt = boot2::<K, 48>(&mut st).expect("boot");
    check(veq(&bt.a.load(), &a1) & veq(&bt.b.load(), &b0), "nothing is lost");
    reach("end");
}
/// A value is set while a pass is under way in the storage; the set may be given up again, and the
/// pass may be cancelled. Exactly what was set counts as changed.
fn c07_busy<const K: usize>(_x: usize) {
    let st: &'static mut Store = Box::leak(Box::new(Store::new()));
    let st: *mut Store = st;
    let s = || unsafe { &mut *st };
    put_record(s(), 1, &[data_rec("b", &V([1, 1])), data_rec("a", &V([2, 2]))]);
    put_record(s(), 2, &[data_rec("b", &V([3, 3])), data_rec("a", &V([4, 4]))]);
    let mut bt = boot2::<K, 48>(s()).expect("boot");
    let list = bt.list;
    let mut val = [V([4, 4]), V([3, 3])];
    let kind = pick(3, "pass");
    if kind == 2 {
        check(ok(&garbage(list, s())), "collecting succeeds");
        val[1] = any_v("b");
        set(&mut bt.b, &val[1]);
    }
    s().faults = Faults::new(F_SLOW, 1);
    let mut pass: Pin<Box<dyn Future<Output = WR>>> = match kind {
        0 => Box::pin(async move {
            let mut buf = [0u8; MAXB];
            Some(list.process_reads(unsafe { &mut *st }, &mut buf).await.map(|_| ()))
        }),
        1 => Box::pin(async move {
            let mut buf = [0u8; MAXB];
            Some(list.process_garbage(unsafe { &mut *st }, &mut buf).await.map(|_| ()))
        }),
        _ => Box::pin(async move {
            let mut buf = [0u8; MAXB];
            Some(list.process_writes(unsafe { &mut *st }, &mut buf).await.map(|_| ()))
        }),
    };
    let mut cx = Context::from_waker(Waker::noop());
    assume(pass.as_mut().poll(&mut cx).is_pending());
    reach("under way");
    let v = any_v("a");
    let mut changed = kind == 2;
    let mut cancelled = false;
    let mut kept = false;
    {
        let mut f = Box::pin(bt.a.write(&v));
        let mut r = f.as_mut().poll(&mut cx);
        let keep = r.is_ready() || flip("wait for it");
        if !keep {
            drop(f);
            reach("given up");
            if flip("cancel the pass") {
                cancelled = true;
                drop(pass);
            } else {
                GO_ON.store(true, Relaxed);
                match pass.as_mut().poll(&mut cx) {
                    Poll::Ready(r) => check(ok(&r), "the pass succeeds"),
                    Poll::Pending => check(false, "the pass completes"),
                }
            }
        } else {
            if flip("cancel the pass") {
                cancelled = true;
                drop(pass);
            } else {
                GO_ON.store(true, Relaxed);
                match pass.as_mut().poll(&mut cx) {
                    Poll::Ready(r) => check(ok(&r), "the pass succeeds"),
                    Poll::Pending => check(false, "the pass completes"),
                }
            }
            if r.is_pending() {
                r = f.as_mut().poll(&mut cx);
            }
            check(matches!(r, Poll::Ready(Ok(()))), "write to a live handle succeeds");
            val[0] = v;
            changed = true;
            kept = true;
        }
    }
    if kind == 2 && !cancelled {
        changed = kept;
    }
    s().faults.off();
    check(veq(&bt.a.load(), &val[0]) & veq(&bt.b.load(), &val[1]), "the values are those set");
    if !changed {
        let (p, d) = (s().pushes, s().pops);
        if kind == 2 {
            let r0 = s().reads;
            let r = writes(list, s());
            check((ok(&r) | needs_gc(&r)) & (s().reads == r0) & (s().pops == d), "nothing changed: no storage access");
        }
        check(flush(list, s(), 4), "writing succeeds");
        check(s().pushes == p, "nothing changed, nothing is written");
        reach("nothing changed");
    } else {
        check(flush(list, s(), 4), "writing succeeds");
        reach("changed");
    }
    let bt = boot2::<K, 48>(s()).expect("boot");
    check(veq(&bt.a.load(), &val[0]) & veq(&bt.b.load(), &val[1]), "everything is durable");
    reach("end");
}
pub fn c07_busy_set() { let k = 1 + pick(2, "kept records"); with_k!(k, c07_busy, 0) }
pub fn c07_late_node() { let k = 1 + pick(3, "kept records"); with_k!(k, c07_late, 0) }

// ------------------------------------------------------------------------------ C08 retrying

fn c08<const K: usize>(mask: u32, budget: u32, rounds: usize) {
    let mut st: Store = Store::new();
    let old = (any_v("a0"), any_v("b0"));
    put_record(&mut st, 1, &[data_rec("b", &old.1), data_rec("a", &old.0)]);
    let mut bt = boot2::<K, 48>(&mut st).expect("boot");
    if flip("collect first") {
        check(ok(&garbage(bt.list, &mut st)), "gc succeeds");
    }
    let mut cur = old;
    st.faults = Faults::new(mask, budget);
    for _ in 0..rounds {
        if flip("set both") {
            cur.1 = any_v("b");
            set(&mut bt.b, &cur.1);
        }
        cur.0 = any_v("a");
        set(&mut bt.a, &cur.0);
        let r = writes(bt.list, &mut st);
        let r = if needs_gc(&r) {
            let _ = garbage(bt.list, &mut st);
            writes(bt.list, &mut st)
        } else {
            r
        };
        if needs_read(&r) {
            let _ = reads(bt.list, &mut st);
        }
        if !ok(&r) {
            reach("failed");
        }
        check(veq(&bt.a.load(), &cur.0) & veq(&bt.b.load(), &cur.1), "a failed write keeps the values in memory");
    }
    st.faults.off();
    check(flush(bt.list, &mut st, 4), "doing what the errors ask for gets the values written");
    let bt = boot2::<K, 48>(&mut st).expect("boot");
    check(veq(&bt.a.load(), &cur.0) & veq(&bt.b.load(), &cur.1), "after the retry the values are durable");
    reach("end");
}
const ANY: u32 = F_PUSH_ERR | F_PUSH_HANG | F_READ_ERR | F_READ_HANG | F_INV_ERR | F_INV_HANG;
pub fn c08_once() { let k = 1 + pick(2, "kept records"); with_k!(k, c08, ANY, 1, 1) }
pub fn c08_two() { c08::<2>(ANY, 2, 1) }
pub fn c08_rounds() { c08::<1>(ANY, 1, 2) }
pub fn c08_deep() { let k = 1 + pick(2, "kept records"); with_k!(k, c08, ANY, 2, 2) }

// ------------------------------------------------------------------------------ C15 transient

/// Reading with transient errors and cancellations, retried, gives what undisturbed reading gives.
fn c15<const K: usize>(n: usize, damage: bool, budget: u32, late: bool) {
    let mut st: Store = Store::new();
    any_records(&mut st, n, damage);
    // the last one also has "b"
    let bv = any_v("stored b");
    let q = any_u32("seq");
    assume(q != 0 && q < 0xffff_fff0);
    put_record(&mut st, q, &[data_rec("b", &bv)]);
    let n = st.n;
    let before = st.items;
    distinct_seqs(&valid(&before[..n]));
    st.faults = Faults::new(F_READ_ERR | F_READ_HANG, budget);
    let list = new_list::<K>();
    let fa = start(node::<V>("a"), list);
    let mut fb = if late { None } else { Some(start(node::<V>("b"), list)) };
    let mut done = false;
    for i in 0..budget + 1 {
        let f0 = st.faults.budget;
        let r = reads(list, &mut st);
        if ok(&r) {
            done = true;
            break;
        }
        check(st.faults.budget < f0, "a read fails only when the storage does");
        reach("failed read");
        if i == 0 && fb.is_none() {
            // a node attached between the attempts
            fb = Some(start(node::<V>("b"), list));
        }
    }
    check(done, "reading succeeds once the storage does");
    let a = finish(fa);
    if fb.is_none() {
        fb = Some(start(node::<V>("b"), list));
        let _ = reads(list, &mut st);
        st.faults.off();
        check(ok(&reads(list, &mut st)), "reading succeeds");
    }
    let b = finish(fb.unwrap());
    st.faults.off();
    check(veq(&a.load(), &expected_v(&before[..n], "a").unwrap_or_default()), "a as if undisturbed");
    check(veq(&b.load(), &expected_v(&before[..n], "b").unwrap_or_default()), "b as if undisturbed");
    check(st.n == n && st.pushes == 0 && st.pops == 0, "failed reads do not change the storage");
    check(ok(&garbage(list, &mut st)), "gc succeeds");
    check_kept(&before[..n], &st, K);
    reach("end");
}
/// Between the failed read and its repetition the application goes on: it sets what has been
/// loaded, and writes and collects as far as that is possible.
fn c15_between<const K: usize>(first: bool, steps: usize) {
    let mut st: Store = Store::new();
    let (av, bv) = (any_v("stored a"), any_v("stored b"));
    let (da, db) = (data_rec("a", &av), data_rec("b", &bv));
    if flip("b first") {
        put_record(&mut st, 4, &[db, da]);
    } else {
        put_record(&mut st, 4, &[da, db]);
    }
    let list = new_list::<K>();
    let mut z = None;
    if first {
        // not the first read of this list: no collection is due
        let fz = start(node::<V>("z"), list);
        check(ok(&reads(list, &mut st)), "reading succeeds");
        z = Some(finish(fz));
        check(ok(&garbage(list, &mut st)), "collecting succeeds");
    }
    let mut f = [Some(start(node::<V>("a"), list)), Some(start(node::<V>("b"), list))];
    let mut h: [Option<Handle<V, K>>; 2] = [None, None];
    let mut val = [av, bv];
    st.faults = Faults::new(F_READ_ERR | F_READ_HANG, 1);
    assume(!ok(&reads(list, &mut st)));
    st.faults.off();
    let look = |f: &mut [Option<Att<V, K>>; 2], h: &mut [Option<Handle<V, K>>; 2], val: &[V; 2]| {
        for i in 0..2 {
            if let Some(x) = f[i].as_mut()
                && let Some(r) = poll_att(x)
            {
                f[i] = None;
                match r {
                    Ok(x) => h[i] = Some(x),
                    Err(_) => check(false, "attach succeeds"),
                }
            }
            if let Some(h) = h[i].as_ref() {
                check(veq(&h.load(), &val[i]), "a node holds what is stored, or what was set");
            }
        }
    };
    look(&mut f, &mut h, &val);
    if h[0].is_some() != h[1].is_some() {
        reach("one of two loaded");
    }
    for _ in 0..steps {
        match pick(4, "operation") {
            0 => {
                let i = pick(2, "node") as usize;
                assume(h[i].is_some());
                val[i] = any_v("set");
                set(h[i].as_mut().unwrap(), &val[i]);
                reach("set between");
            }
            1 => {
                let r = writes(list, &mut st);
                check(ok(&r) | needs_read(&r) | needs_gc(&r), "writing asks for a read or a collection");
            }
            2 => check(ok(&garbage(list, &mut st)), "collecting succeeds"),
            _ => {
                let z = z.as_mut();
                assume(z.is_some());
                set(z.unwrap(), &V([9, 9]));
            }
        }
        look(&mut f, &mut h, &val);
    }
    check(ok(&reads(list, &mut st)), "reading succeeds");
    look(&mut f, &mut h, &val);
    check(h[0].is_some() & h[1].is_some(), "a repeated read completes all attaches");
    check(flush(list, &mut st, 4), "everything can be written");
    let bt = boot2::<K, 48>(&mut st).expect("boot");
    check(veq(&bt.a.load(), &val[0]) & veq(&bt.b.load(), &val[1]), "nothing is lost");
    reach("end");
}
/// Reads (and collections) given a buffer too small for some element are repeated with a larger one.
pub fn c15_buffer() {
    let mut st: Store = Store::new();
    let (av, bv) = (any_v("stored a"), any_v("stored b"));
    let x = any_blob(fix(1 + pick(18, "length") as u64) as usize);
    let (old, new) = ([data_rec("a", &any_v("old a")), data_rec("c", &x)], [data_rec("a", &av), data_rec("b", &bv)]);
    let with_x = flip("newest is larger");
    put_record(&mut st, 4, &old);
    if with_x {
        put_record(&mut st, 5, &[new[0], data_rec("c", &x), new[1]]);
    } else {
        put_record(&mut st, 5, &new);
    }
    let (n, before) = (st.n, st.items);
    let list = new_list::<1>();
    let (fa, fb, fc) = (start(node::<V>("a"), list), start(node::<V>("b"), list), start(node::<Blob>("c"), list));
    let len = fix(pick(MAXB as u32 + 1, "buffer") as u64) as usize;
    let mut buf = [0u8; MAXB];
    for _ in 0..1 + pick(2, "attempts") {
        let r = poll1(list.process_reads(&mut st, &mut buf[..len])).map(|r| r.map(|_| ()));
        if ok(&r) {
            break;
        }
        reach("too small");
    }
    check(same(&before[..n], &st), "reading changes nothing");
    check(ok(&reads(list, &mut st)), "reading succeeds");
    let (a, b, c) = (finish(fa), finish(fb), finish(fc));
    let none = Blob::default();
    check(veq(&a.load(), &av) & veq(&b.load(), &bv), "as if undisturbed");
    check(beq(&c.load(), if with_x { &x } else { &none }), "as if undisturbed");
    let r = poll1(list.process_garbage(&mut st, &mut buf[..len])).map(|r| r.map(|_| ()));
    if !ok(&r) {
        reach("too small to collect");
        check(ok(&reads(list, &mut st)), "reading succeeds");
        check(ok(&garbage(list, &mut st)), "gc succeeds");
    }
    check_kept(&before[..n], &st, 1);
    reach("end");
}
pub fn c15_between1() { c15_between::<1>(true, 2) }
pub fn c15_between2() { c15_between::<2>(false, 3) }
pub fn c15_between3() { c15_between::<2>(true, 4) }
pub fn c15_two() { c15::<2>(1, false, 1, false) }
pub fn c15_late() { c15::<1>(1, false, 1, true) }
pub fn c15_damaged() { c15::<1>(1, true, 2, false) }
pub fn c15_three() { let k = 1 + pick(2, "kept records"); with_k!(k, c15, 2, false, 2, false) }
pub fn c15_deep() { let k = 1 + pick(2, "kept records"); with_k!(k, c15, 2, true, 2, true) }

// ------------------------------------------------------------------------------ C14 limits

/// A byte string of any length up to 26.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Blob {
    pub n: usize,
    pub b: [u8; 26],
}
impl Default for Blob {
    fn default() -> Self {
        Blob { n: 0, b: [0; 26] }
    }
}
impl<C> Encode<C> for Blob {
    fn encode<W: minicbor::encode::Write>(
        &self,
        e: &mut minicbor::Encoder<W>,
        _: &mut C,
    ) -> Result<(), minicbor::encode::Error<W::Error>> {
        e.bytes(&self.b[..self.n])?.ok()
    }
}
impl<'b, C> Decode<'b, C> for Blob {
    fn decode(d: &mut minicbor::Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        let s = d.bytes()?;
        if s.len() > 26 {
            return Err(minicbor::decode::Error::message("length"));
        }
        let mut b = [0u8; 26];
        b[..s.len()].copy_from_slice(s);
        Ok(Blob { n: s.len(), b })
    }
}
impl<C> CborLen<C> for Blob {
    fn cbor_len(&self, _: &mut C) -> usize {
        self.n + if self.n < 24 { 1 } else { 2 }
    }
}
pub fn beq(x: &Blob, y: &Blob) -> bool {
    if x.n != y.n {
        return false;
    }
    let mut d = 0;
    for i in 0..x.n {
        d |= x.b[i] ^ y.b[i];
    }
    d == 0
}
pub fn any_blob(n: usize) -> Blob {
    let mut x = Blob { n, b: [0; 26] };
    // a few symbolic bytes are enough: the code does not look at them
    for i in [0, n / 2, n.saturating_sub(1)] {
        if i < n {
            x.b[i] = any_u8("blob");
        }
    }
    x
}
pub type SErr = Option<Result<(), LoadStoreError<IoErr>>>;
fn too_big(r: &SErr) -> bool {
    matches!(r, Some(Err(LoadStoreError::AppError(Error::Serialization))))
}
/// A value that does not fit is refused without a panic and without harm; a smaller one works.
fn c14(key: &'static str, blen: usize, first: bool, by_ref: bool) {
    let mut st: Store = Store::new();
    let old = any_v("old");
    put_record(&mut st, 4, &[data_rec("o", &old)]);
    let list = new_list::<2>();
    let (big, other) = (node::<Blob>(key), node::<V>("o"));
    // the position in the list decides what has been written when the big one is refused
    let (fb, fo) = if first {
        let fo = start(other, list);
        (start(big, list), fo)
    } else {
        (start(big, list), start(other, list))
    };
    check(ok(&reads(list, &mut st)), "reading succeeds");
    let (mut hb, mut ho) = (finish(fb), finish(fo));
    check(veq(&ho.load(), &old), "stored value is loaded");
    check(ok(&garbage(list, &mut st)), "gc succeeds");
    let n = fix(pick(27, "length") as u64) as usize;
    let x = any_blob(n);
    let v = any_v("new");
    set(&mut hb, &x);
    set(&mut ho, &v);
    let need = 1 + if key.len() < 24 { 1 } else { 2 } + key.len() + n + if n < 24 { 1 } else { 2 };
    check(
        <Store as NdlDataStorage>::check_node_size(key, &x) == (need <= MAXB),
        "the size check says whether the element fits",
    );
    let mut buf = [0u8; 64];
    let r = if by_ref {
        check(
            <&mut Store as NdlDataStorage>::check_node_size(key, &x) == (need <= MAXB),
            "the size check says whether the element fits",
        );
        poll1(list.process_writes(&mut &mut st, &mut buf[..blen])).map(|r| r.map(|_| ()))
    } else {
        poll1(list.process_writes(&mut st, &mut buf[..blen])).map(|r| r.map(|_| ()))
    };
    let other_need = 1 + 2 + 3;
    if need <= blen.min(MAXB) && other_need <= blen {
        check(ok(&r), "what fits is written");
        reach("fits");
    } else {
        // with a larger buffer, it is the storage that refuses it
        check(too_big(&r) | (blen > MAXB) & matches!(r, Some(Err(_))), "what does not fit is refused");
        reach("refused");
        check(beq(&hb.load(), &x) & veq(&ho.load(), &v), "values in memory are kept");
        if flip("reboot") {
            let l = new_list::<2>();
            let fo = start(node::<V>("o"), l);
            check(ok(&reads(l, &mut st)), "reading succeeds");
            check(veq(&finish(fo).load(), &old), "the stored values are kept");
            return;
        }
        if need > MAXB {
            set(&mut hb, &Blob { n: 0, b: x.b });
            if key.len() > 21 {
                return;
            }
        }
        check(flush(list, &mut st, 4), "a smaller value or a larger buffer is written");
    }
    let want = if need > MAXB { Blob { n: 0, b: x.b } } else { x };
    let l = new_list::<2>();
    let fs = (start(node::<Blob>(key), l), start(node::<V>("o"), l));
    check(ok(&reads(l, &mut st)), "reading succeeds");
    check(beq(&finish(fs.0).load(), &want) & veq(&finish(fs.1).load(), &v), "both values are durable");
    reach("end");
}
pub fn c14_value() { c14("k", MAXB, flip("first"), flip("by reference")) }
pub fn c14_key() {
    let k = match pick(4, "key") {
        0 => "",
        1 => "0123456789abcdefghij",
        2 => "0123456789abcdefghijk",
        _ => "0123456789abcdefghijklmnopqr",
    };
    c14(k, MAXB, flip("first"), false)
}
pub fn c14_buffer() {
    let b = fix(pick(25, "buffer") as u64) as usize;
    c14("k", b, flip("first"), false)
}

/// A buffer larger than what the storage takes.
pub fn c14_over() {
    c14("k", MAXB + 1 + fix(pick(3, "buffer") as u64) as usize, flip("first"), flip("by reference"))
}
/// A value of any length.
struct Long(usize);
impl<C> Encode<C> for Long {
    fn encode<W: minicbor::encode::Write>(
        &self,
        _: &mut minicbor::Encoder<W>,
        _: &mut C,
    ) -> Result<(), minicbor::encode::Error<W::Error>> {
        panic!("harness: the size check does not encode")
    }
}
impl<C> CborLen<C> for Long {
    fn cbor_len(&self, _: &mut C) -> usize {
        self.0
    }
}
/// The size check for keys with headers of 1, 2 and 3 bytes and values of any size.
pub fn c14_check() {
    let v = Long(any_u16("value size") as usize);
    let keys: [usize; 8] = [0, 1, 23, 24, 100, 255, 256, 380];
    let n = keys[pick(8, "key length") as usize];
    let key = "k".repeat(n);
    let need = 1 + n + if n < 24 { 1 } else if n < 256 { 2 } else { 3 } + v.0;
    check(
        Log::check_node_size(&key, &v) == (need <= Log::MAX_ELEM_SIZE),
        "the size check says whether the element fits",
    );
    check(
        <&mut Log>::check_node_size(&key, v) == (need <= Log::MAX_ELEM_SIZE),
        "the size check says whether the element fits",
    );
    reach("end");
}

// ------------------------------------------------------------------------------ C17 counters

fn c17<const K: usize>(n: usize, damage: bool) {
    let mut st: Store = Store::new();
    any_records(&mut st, n, damage);
    distinct_seqs(&valid(st.recs()));
    c17_on::<K>(st)
}
/// Bytes read, pushed and removed since the last call, as the storage counts them.
fn moved(st: &mut Store) -> (usize, usize, usize) {
    let r = (st.rb, st.wb, st.pb);
    (st.rb, st.wb, st.pb) = (0, 0, 0);
    r
}
fn c17_on<const K: usize>(mut st: Store) {
    let list = new_list::<K>();
    let fa = start(node::<V>("a"), list);
    let mut buf = [0u8; MAXB];
    // reads: the data elements of the newest record, and everything that was read
    let size = |st: &Store| match newest(st.recs()) {
        Some(x) => st.items[x.s + 1..x.e].iter().map(|r| r.size()).sum(),
        None => 0,
    };
    macro_rules! read {
        () => {
            let Some(Ok(c)) = poll1(list.process_reads(&mut st, &mut buf)) else {
                return check(false, "reading succeeds");
            };
            check(c.current_bytes_read == size(&st), "bytes of the current record");
            check((c.total_bytes_read, 0, 0) == moved(&mut st), "bytes read by a read");
        };
    }
    macro_rules! collect {
        () => {{
            let r0 = st.rb;
            let Some(Ok(c)) = poll1(list.process_garbage(&mut st, &mut buf)) else {
                return check(false, "collecting succeeds");
            };
            let total: usize = st.recs().iter().map(|r| r.size()).sum();
            check((c.total_bytes_read, 0, c.total_bytes_popped) == moved(&mut st), "bytes read and removed by a collection");
            check(c.post_collection_bytes_read <= c.total_bytes_read - r0, "bytes read after collecting are part of all bytes read");
            check(
                c.post_collection_bytes_read == 0 || c.post_collection_bytes_read == total,
                "bytes read after collecting are what is left",
            );
            c
        }};
    }
    macro_rules! write {
        () => {{
            let Some(Ok(c)) = poll1(list.process_writes(&mut st, &mut buf)) else {
                return check(false, "writing succeeds");
            };
            check((c.total_bytes_read, c.current_bytes_written, 0) == moved(&mut st), "bytes written and read back");
            c
        }};
    }
    read!();
    let mut a = finish(fa);
    read!();
    collect!();
    read!();
    set(&mut a, &any_v("new"));
    let c = write!();
    check(c.current_bytes_written > 0, "something was written");
    let n = node::<V>("b");
    let fb = start(n, list);
    read!();
    let b = finish(fb);
    collect!();
    let c = collect!();
    check(c.total_bytes_popped == 0 && c.total_bytes_read == 0, "collecting nothing reports nothing");
    write!();
    collect!();
    let c = write!();
    check(c.current_bytes_written == 0 && c.total_bytes_read == 0, "writing nothing reports nothing");
    drop(b);
    reach("end");
}
/// Records with elements nobody asks for, that do not decode, or none at all.
fn c17_kinds<const K: usize>(n: usize, m: u32) {
    let mut st: Store = Store::new();
    let bad = [Rec::data(&[1, 0x61, b'a']), Rec::data(&[1, 0xff, 0x61]), data_rec("a", &300u16)];
    for i in 0..n {
        let mut d = [Rec::Junk; 3];
        let k = pick(m + 1, "elements") as usize;
        for x in d[..k].iter_mut() {
            *x = match pick(6, "kind") {
                0 => data_rec("a", &any_v("stored")),
                1 => data_rec("b", &any_v("stored b")),
                2 => data_rec("unknown", &any_u32("stored u")),
                j => bad[j as usize - 3],
            };
        }
        put_record(&mut st, 3 + i as u32, &d[..k]);
    }
    c17_on::<K>(st)
}
/// A storage whose elements take any space.
pub fn c17_sizes() {
    let x = any_u32("overhead");
    assume(x < 1 << 28);
    OVERHEAD.store(x as usize, core::sync::atomic::Ordering::Relaxed);
    let k = 1 + pick(2, "kept records");
    with_k!(k, c17_kinds, 2, 1)
}
pub fn c17_kinds1() { let k = 1 + pick(2, "kept records"); with_k!(k, c17_kinds, 1, 3) }
pub fn c17_kinds2() { let k = 1 + pick(2, "kept records"); with_k!(k, c17_kinds, 2, 1) }
pub fn c17_kinds_deep() { let k = 1 + pick(2, "kept records"); with_k!(k, c17_kinds, 2, 2) }
pub fn c17_order() { let k = 1 + pick(2, "kept records"); with_k!(k, c17, 3, false) }
pub fn c17_damaged() { let k = 1 + pick(2, "kept records"); with_k!(k, c17, 2, true) }
pub fn c17_deep() { let k = 1 + pick(3, "kept records"); with_k!(k, c17, 4, true) }

#[allow(unused)]
fn unused() { let _ = any_slot; }
