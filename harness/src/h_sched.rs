//! Interleaved tasks: attaching, setting, reading, writing and collecting under a symbolic
//! scheduler. A task is polled only when its waker was called, so a lost wake-up is a stuck task.
use super::h_worker::{Sh, mark_woken, poll_as, reset_tasks, take_woken};
use super::kit::*;
use core::cell::Cell;
use core::sync::atomic::{AtomicPtr, AtomicU32, Ordering::Relaxed};

type Task = Pin<Box<dyn Future<Output = ()>>>;
const NT: usize = 5;
const KEYS: [&str; 3] = ["a", "b", "c"];
const OLD: [V; 2] = [V([1, 2]), V([3, 4])];

/// What the tasks share with the harness.
struct S<const K: usize> {
    st: *mut Store,
    list: &'static List<K>,
    n: [&'static StorageListNode<V>; 3],
    h: [Cell<Option<Handle<V, K>>>; 3],
    /// the value whose setting began last, and the value whose setting completed last
    pend: [Cell<Option<V>>; 3],
    val: [Cell<Option<V>>; 3],
    /// attach under way / completed / owed because a read that started after it succeeded
    began: [Cell<bool>; 3],
    done: [Cell<bool>; 3],
    owed: [Cell<bool>; 3],
    /// attach cancelled
    gone: [Cell<bool>; 3],
    /// not attached while a new record was written: the stored value is not part of it
    lost: [Cell<bool>; 3],
    reads: Cell<u32>,
    writes: Cell<u32>,
}
impl<const K: usize> S<K> {
    fn new(st: Store) -> &'static Self {
        reset_tasks();
        PREEMPT.store(0, Relaxed);
        leak(S {
            st: Box::leak(Box::new(st)),
            list: new_list::<K>(),
            n: [node(KEYS[0]), node(KEYS[1]), node(KEYS[2])],
            h: [const { Cell::new(None) }; 3],
            pend: [const { Cell::new(None) }; 3],
            val: [const { Cell::new(None) }; 3],
            began: [const { Cell::new(false) }; 3],
            done: [const { Cell::new(false) }; 3],
            owed: [const { Cell::new(false) }; 3],
            gone: [const { Cell::new(false) }; 3],
            lost: [const { Cell::new(false) }; 3],
            reads: Cell::new(0),
            writes: Cell::new(0),
        })
    }
    fn st(&self) -> &'static mut Store {
        unsafe { &mut *self.st }
    }
    /// Attach nodes and load them before the tasks start.
    fn boot(&'static self, nodes: usize) {
        let mut f = [const { None }; 3];
        for i in 0..nodes {
            f[i] = Some(start(self.n[i], self.list));
        }
        check(ok(&reads(self.list, self.st())), "reading succeeds");
        for i in 0..nodes {
            self.h[i].set(Some(finish(f[i].take().unwrap())));
            self.done[i].set(true);
        }
        check(ok(&garbage(self.list, self.st())), "collecting succeeds");
        let mut cx = Context::from_waker(Waker::noop());
        // the application has seen the request to read
        let _ = pin!(self.list.needs_read()).as_mut().poll(&mut cx);
    }
}

async fn attach<const K: usize>(s: &'static S<K>, i: usize) {
    s.began[i].set(true);
    match s.n[i].attach(s.list).await {
        Ok(h) => s.h[i].set(Some(h)),
        Err(_) => check(false, "attach succeeds"),
    }
    s.done[i].set(true);
}
/// Set a value and look at it right away.
async fn put<const K: usize>(s: &'static S<K>, i: usize, v: V) {
    let mut h = s.h[i].take().unwrap();
    s.pend[i].set(Some(v));
    check(h.write(&v).await.is_ok(), "setting a value succeeds");
    check(veq(&h.load(), &v), "a value that was set is read back");
    s.val[i].set(Some(v));
    s.h[i].set(Some(h));
}
async fn read_pass<const K: usize>(s: &'static S<K>) -> bool {
    let before = [s.began[0].get(), s.began[1].get(), s.began[2].get()];
    let mut buf = [0u8; MAXB];
    let r = s.list.process_reads(&mut Sh(s.st), &mut buf).await;
    if r.is_ok() {
        s.reads.set(s.reads.get() + 1);
        for i in 0..3 {
            if before[i] {
                s.owed[i].set(true);
            }
        }
    }
    r.is_ok()
}
async fn collect<const K: usize>(s: &'static S<K>) -> bool {
    let mut buf = [0u8; MAXB];
    s.list.process_garbage(&mut Sh(s.st), &mut buf).await.is_ok()
}
async fn write_pass<const K: usize>(s: &'static S<K>) -> Result<(), LoadStoreError<IoErr>> {
    let before = [s.val[0].get(), s.val[1].get(), s.val[2].get()];
    let mut buf = [0u8; MAXB];
    let r = s.list.process_writes(&mut Sh(s.st), &mut buf).await.map(|_| ());
    if r.is_ok() {
        s.writes.set(s.writes.get() + 1);
        let recs = s.st().recs();
        let x = newest(recs);
        for i in 0..2 {
            // what the storage held to begin with
            let old = match x {
                Some(x) => holds(recs, &x, &data_rec(KEYS[i], &OLD[i])),
                None => false,
            };
            if !s.done[i].get() && !old {
                s.lost[i].set(true);
            }
        }
        for i in 0..3 {
            if let Some(v) = before[i] {
                let mut stored = false;
                if let Some(x) = x {
                    stored = holds(recs, &x, &data_rec(KEYS[i], &v));
                    // the value being set meanwhile may have been in time as well
                    if let Some(w) = s.pend[i].get() {
                        stored |= holds(recs, &x, &data_rec(KEYS[i], &w));
                    }
                }
                check(stored, "a successful write pass stores every value set before it started");
            }
        }
    }
    r
}
/// A worker as an application would write it: serve each request as it comes.
async fn worker<const K: usize>(s: &'static S<K>) {
    let (mut r, mut w) = (None, None);
    loop {
        let mut rd: Pin<Box<dyn Future<Output = ()>>> = r.take().unwrap_or_else(|| Box::pin(s.list.needs_read()) as _);
        let mut wr: Pin<Box<dyn Future<Output = ()>>> = w.take().unwrap_or_else(|| Box::pin(s.list.needs_write()) as _);
        let first = core::future::poll_fn(|cx| {
            if rd.as_mut().poll(cx).is_ready() {
                return Poll::Ready(true);
            }
            if wr.as_mut().poll(cx).is_ready() {
                return Poll::Ready(false);
            }
            Poll::Pending
        })
        .await;
        if first {
            w = Some(wr);
            read_pass(s).await;
        } else {
            r = Some(rd);
            collect(s).await;
            match write_pass(s).await {
                Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
                    read_pass(s).await;
                    collect(s).await;
                    let _ = write_pass(s).await;
                }
                _ => {}
            }
        }
    }
}

/// The tasks. Shared with `preempt`, which runs in the middle of a task.
struct Core {
    t: [Option<Task>; NT],
    ready: [bool; NT],
    n: usize,
}
struct Exec(*mut Core);
impl Exec {
    fn new() -> Self {
        Exec(Box::into_raw(Box::new(Core { t: [const { None }; NT], ready: [false; NT], n: 0 })))
    }
    fn spawn(&mut self, f: impl Future<Output = ()> + 'static) -> usize {
        let n = unsafe { (*self.0).n };
        unsafe {
            (*self.0).t[n] = Some(Box::pin(f));
            (*self.0).n += 1;
        }
        mark_woken(n);
        n
    }
    fn alive(&self, i: usize) -> bool {
        unsafe { (*self.0).t[i].is_some() }
    }
    fn ready(&self, i: usize) -> bool {
        unsafe { (*self.0).ready[i] }
    }
    fn kill(&mut self, i: usize) {
        let f = unsafe { (*self.0).t[i].take() };
        drop(f);
        unsafe { (*self.0).ready[i] = false };
    }
    /// A task that is being polled is not in its slot.
    fn poll(&mut self, i: usize) {
        let f = unsafe {
            (*self.0).ready[i] = false;
            (*self.0).t[i].take()
        };
        if let Some(mut f) = f {
            match poll_as(&mut f, i) {
                Some(()) => drop(f),
                None => unsafe { (*self.0).t[i] = Some(f) },
            }
        }
    }
    fn collect_ready(&mut self) -> usize {
        let mut c = 0;
        for i in 0..unsafe { (*self.0).n } {
            if self.alive(i) {
                if take_woken(i) {
                    unsafe { (*self.0).ready[i] = true };
                }
                c += self.ready(i) as usize;
            }
        }
        c
    }
    fn poll_nth(&mut self, mut k: usize) {
        for i in 0..unsafe { (*self.0).n } {
            if self.ready(i) & self.alive(i) {
                if k == 0 {
                    self.poll(i);
                    return;
                }
                k -= 1;
            }
        }
    }
    /// One scheduling decision; false if nothing can run.
    fn step(&mut self) -> bool {
        let c = self.collect_ready();
        if c == 0 {
            return false;
        }
        let k = pick(c as u32, "task") as usize;
        self.poll_nth(k);
        true
    }
    /// `free` scheduling decisions, then everything that can run until nothing can.
    fn run(&mut self, free: usize) {
        for _ in 0..free {
            if !self.step() {
                return;
            }
        }
        self.settle();
    }
    fn settle(&mut self) {
        let mut at = 0;
        for _ in 0..60 {
            if self.collect_ready() == 0 {
                return;
            }
            // round robin, to be fair
            while !self.ready(at) | !self.alive(at) {
                at = (at + 1) % NT;
            }
            self.poll(at);
            at = (at + 1) % NT;
        }
        check(false, "the tasks come to rest");
    }
    /// From here on a task can be interrupted `n` times for another task to be polled (from an
    /// interrupt, or on another core): wherever a waker is called or a critical section begins or ends.
    fn preemptive(&mut self, n: u32) {
        EXEC.store(self.0, Relaxed);
        PREEMPT.store(n, Relaxed);
    }
    fn cooperative(&mut self) {
        PREEMPT.store(0, Relaxed);
    }
}
static EXEC: AtomicPtr<Core> = AtomicPtr::new(core::ptr::null_mut());
static PREEMPT: AtomicU32 = AtomicU32::new(0);
pub static CRITICAL: AtomicU32 = AtomicU32::new(0);

/// A point at which the running task can be interrupted.
pub fn preempt() {
    let left = PREEMPT.load(Relaxed);
    if left == 0 || CRITICAL.load(Relaxed) != 0 {
        return;
    }
    let mut x = Exec(EXEC.load(Relaxed));
    let c = x.collect_ready();
    if c == 0 || !flip("interrupted") {
        return;
    }
    PREEMPT.store(left - 1, Relaxed);
    reach("interrupted");
    let k = pick(c as u32, "task") as usize;
    x.poll_nth(k);
}

/// At rest: nobody waits for something that already happened.
fn at_rest<const K: usize>(s: &'static S<K>) {
    for i in 0..3 {
        if s.owed[i].get() & !s.gone[i].get() {
            check(s.done[i].get(), "an attach completes once a read that started after it has completed");
        }
    }
}
/// The newest record holds exactly the values set last.
fn durable<const K: usize>(s: &'static S<K>) {
    let recs = s.st().recs();
    let x = newest(recs);
    for i in 0..3 {
        if let Some(v) = s.val[i].get() {
            let d = match x {
                Some(x) => holds(recs, &x, &data_rec(KEYS[i], &v)),
                None => false,
            };
            check(d, "the values set last are durable once every request was served");
        }
    }
}
fn stored(full: bool) -> Store {
    let mut st = Store::new();
    if full {
        put_record(&mut st, 1, &[data_rec("b", &OLD[1]), data_rec("a", &OLD[0])]);
    }
    st
}
fn loaded<const K: usize>(s: &'static S<K>, full: bool) {
    for i in 0..3 {
        if let Some(h) = s.h[i].take() {
            let want = match s.val[i].get() {
                Some(v) => v,
                None if full && i < 2 && !s.lost[i].get() => OLD[i],
                None => V::default(),
            };
            check(veq(&h.load(), &want), "a handle holds the value set last, else the stored one or the default");
            s.h[i].set(Some(h));
        }
    }
}

/// A worker serving requests; two tasks that attach and then set.
fn c11_start<const K: usize>(free: usize, yields: u32, late: bool) {
    let full = flip("stored");
    let mut st = stored(full);
    st.faults = Faults::new(F_YIELD, yields);
    let s = S::<K>::new(st);
    let mut x = Exec::new();
    let (v0, v1) = (any_v("a"), any_v("b"));
    let t0 = async move {
        attach(s, 0).await;
        put(s, 0, v0).await;
    };
    let t1 = async move {
        attach(s, 1).await;
        put(s, 1, v1).await;
    };
    x.spawn(t0);
    if late {
        x.run(2);
        x.spawn(worker(s));
        x.run(2);
        x.spawn(t1);
    } else {
        x.spawn(worker(s));
        x.spawn(t1);
    }
    x.run(free);
    at_rest(s);
    check(s.done[0].get() & s.done[1].get(), "every attach completes");
    check(s.val[0].get().is_some() & s.val[1].get().is_some(), "every value gets set");
    durable(s);
    loaded(s, full);
    if s.writes.get() > 1 {
        reach("two writes");
    }
    reach("end");
}
pub fn c11_start2() {
    c11_start::<2>(5, 1, false)
}
pub fn c11_late_worker() {
    c11_start::<1>(3, 1, true)
}
pub fn c11_start_deep() {
    c11_start::<2>(7, 2, false)
}

/// Everything attached; tasks that set values at any time, also during write passes.
fn c11_update<const K: usize>(free: usize, yields: u32) {
    let s = S::<K>::new(stored(true));
    s.boot(2);
    s.st().faults = Faults::new(F_YIELD, yields);
    let mut x = Exec::new();
    let v = [any_v("a1"), any_v("a2"), any_v("b1")];
    x.spawn(worker(s));
    x.spawn(async move {
        put(s, 0, v[0]).await;
        YieldOnce(false).await;
        put(s, 0, v[1]).await;
    });
    x.spawn(async move {
        YieldOnce(false).await;
        put(s, 1, v[2]).await;
    });
    x.run(free);
    check(s.val[0].get() == Some(v[1]) && s.val[1].get() == Some(v[2]), "every value gets set");
    durable(s);
    loaded(s, true);
    if s.writes.get() > 1 {
        reach("two writes");
    }
    reach("end");
}
pub fn c11_update2() {
    c11_update::<2>(7, 1)
}
pub fn c11_update_deep() {
    c11_update::<2>(9, 2)
}

/// One node attaching while another sets its value, also during the read that is asked for.
fn c11_attach_set<const K: usize>(free: usize, yields: u32) {
    let s = S::<K>::new(stored(true));
    s.boot(1);
    s.st().faults = Faults::new(F_YIELD, yields);
    let mut x = Exec::new();
    let v = [any_v("a"), any_v("b")];
    x.spawn(async move {
        attach(s, 1).await;
        put(s, 1, v[1]).await;
    });
    x.spawn(worker(s));
    x.spawn(async move {
        put(s, 0, v[0]).await;
    });
    x.run(free);
    check(s.val[0].get() == Some(v[0]) && s.val[1].get() == Some(v[1]), "every value gets set");
    durable(s);
    loaded(s, true);
    if s.writes.get() > 1 {
        reach("two writes");
    }
    reach("end");
}
pub fn c11_attach_set1() {
    c11_attach_set::<2>(6, 1)
}
pub fn c11_attach_set_deep() {
    c11_attach_set::<2>(9, 2)
}

/// Tasks that interrupt one another: one attaches (and sets), one sets, one serves requests.
fn c11_preempt<const K: usize>(sets: bool, free: usize, yields: u32, preempts: u32) {
    let s = S::<K>::new(stored(true));
    s.boot(1);
    s.st().faults = Faults::new(F_YIELD, yields);
    let mut x = Exec::new();
    let v = [any_v("a"), any_v("b")];
    x.spawn(async move {
        attach(s, 1).await;
        if sets {
            put(s, 1, v[1]).await;
        }
    });
    x.spawn(worker(s));
    x.spawn(async move {
        put(s, 0, v[0]).await;
    });
    x.preemptive(preempts);
    x.run(free);
    x.cooperative();
    at_rest(s);
    check(s.done[1].get(), "every attach completes");
    check(s.val[0].get() == Some(v[0]), "every value gets set");
    if sets {
        check(s.val[1].get() == Some(v[1]), "every value gets set");
    }
    durable(s);
    loaded(s, true);
    reach("end");
}
pub fn c11_preempt1() {
    c11_preempt::<2>(true, 2, 1, 1)
}
pub fn c11_preempt2() {
    c11_preempt::<1>(false, 1, 1, 2)
}
pub fn c11_preempt_deep() {
    c11_preempt::<2>(true, 4, 1, 2)
}

/// A task that sets a value twice, interrupted by the worker storing the first one.
fn c11_preempt_update_on<const K: usize>(free: usize, yields: u32, preempts: u32) {
    let s = S::<K>::new(stored(true));
    s.boot(2);
    s.st().faults = Faults::new(F_YIELD, yields);
    let mut x = Exec::new();
    let v = [any_v("a1"), any_v("a2"), any_v("b")];
    x.spawn(async move {
        put(s, 0, v[0]).await;
        YieldOnce(false).await;
        put(s, 0, v[1]).await;
    });
    x.spawn(worker(s));
    x.spawn(async move {
        put(s, 1, v[2]).await;
    });
    x.preemptive(preempts);
    x.run(free);
    x.cooperative();
    check(s.val[0].get() == Some(v[1]) && s.val[1].get() == Some(v[2]), "every value gets set");
    durable(s);
    loaded(s, true);
    reach("end");
}
pub fn c11_preempt_update() {
    c11_preempt_update_on::<2>(3, 1, 1)
}
pub fn c11_preempt_update_deep() {
    c11_preempt_update_on::<1>(5, 2, 2)
}

/// A driver running passes of its own choosing, requests or not, next to attaching tasks.
fn c11_passes<const K: usize>(passes: usize, free: usize, yields: u32, faults: u32) {
    let full = flip("stored");
    let mut st = stored(full);
    st.faults = Faults::new(F_YIELD | faults, yields);
    let s = S::<K>::new(st);
    let mut x = Exec::new();
    let v0 = any_v("a");
    x.spawn(async move {
        attach(s, 0).await;
        put(s, 0, v0).await;
    });
    x.spawn(async move {
        for _ in 0..passes {
            match pick(3, "pass") {
                0 => {
                    if !read_pass(s).await {
                        reach("failed read");
                    }
                }
                1 => {
                    collect(s).await;
                }
                _ => {
                    let _ = write_pass(s).await;
                }
            }
            YieldOnce(false).await;
        }
    });
    x.spawn(async move {
        attach(s, 1).await;
    });
    x.run(free);
    at_rest(s);
    loaded(s, full);
    // a read, and all are there; a collection and a write, and all is durable
    s.st().faults.off();
    x.spawn(async move {
        check(read_pass(s).await, "reading succeeds");
        YieldOnce(false).await;
        YieldOnce(false).await;
        check(collect(s).await, "collecting succeeds");
        check(write_pass(s).await.is_ok(), "writing succeeds");
    });
    x.settle();
    at_rest(s);
    check(s.done[0].get() & s.done[1].get(), "every attach completes");
    check(s.val[0].get().is_some(), "every value gets set");
    durable(s);
    loaded(s, full);
    reach("end");
}
pub fn c11_passes2() {
    c11_passes::<2>(2, 5, 1, 0)
}
pub fn c11_passes_err() {
    c11_passes::<1>(2, 5, 1, F_READ_ERR)
}
pub fn c11_passes_deep() {
    c11_passes::<2>(3, 7, 2, F_READ_ERR)
}

/// Tasks cancelled at any point take nothing with them.
fn c11_cancel<const K: usize>(free: usize, after: usize, yields: u32, preempts: u32) {
    let s = S::<K>::new(stored(true));
    let who = pick(4, "victim");
    s.boot(if who == 3 { 3 } else { 2 });
    // the node to detach has no handle
    s.h[2].set(None);
    s.done[2].set(false);
    s.st().faults = Faults::new(F_YIELD, yields);
    let mut x = Exec::new();
    let v = [any_v("a"), any_v("b")];
    x.spawn(worker(s));
    let victim = match who {
        0 => x.spawn(async move {
            // sets the value the next task sets
            let mut h = s.h[0].take().unwrap();
            s.pend[0].set(Some(v[0]));
            let _ = h.write(&v[0]).await;
            s.val[0].set(Some(v[0]));
            core::mem::forget(h);
        }),
        1 => x.spawn(attach(s, 2)),
        _ => x.spawn(async move {
            let _ = s.n[2].detach(s.list).await;
        }),
    };
    x.spawn(async move {
        put(s, 1, v[1]).await;
    });
    x.preemptive(preempts);
    for _ in 0..free {
        if !x.step() {
            break;
        }
    }
    x.cooperative();
    if x.alive(victim) {
        reach("cancelled");
    }
    x.kill(victim);
    s.gone[2].set(true);
    x.run(after);
    at_rest(s);
    check(s.val[1].get() == Some(v[1]), "every value gets set");
    durable(s);
    // the node whose attach was cancelled can be attached
    let f = attach(s, 2);
    s.h[2].set(None);
    x.spawn(f);
    x.settle();
    check(s.done[2].get(), "every attach completes");
    reach("end");
}
pub fn c11_cancel1() {
    c11_cancel::<2>(4, 2, 1, 0)
}
pub fn c11_cancel_deep() {
    c11_cancel::<2>(6, 4, 2, 0)
}
pub fn c11_preempt_cancel() {
    c11_cancel::<1>(3, 1, 1, 1)
}

/// A request made before anyone waits for it is there when someone does, once.
pub fn c11_signal() {
    let s = S::<2>::new(stored(true));
    s.boot(1);
    let ready = |f: &mut Task| poll_as(f, 4).is_some();
    let rd = || -> Task { Box::pin(s.list.needs_read()) };
    let wr = || -> Task { Box::pin(s.list.needs_write()) };
    let (mut r, mut w) = (None, None);
    let (mut want_r, mut want_w) = (false, false);
    let mut att = None;
    let mut woken = false;
    for _ in 0..5 {
        match pick(6, "event") {
            0 => {
                assume(att.is_none());
                att = Some(start(s.n[1], s.list));
                want_r = true;
            }
            1 => {
                let mut h = s.h[0].take().unwrap();
                set(&mut h, &V([7, 8]));
                s.h[0].set(Some(h));
                want_w = true;
            }
            2 => {
                let mut f = r.take().unwrap_or_else(rd);
                if ready(&mut f) {
                    reach("read request");
                } else {
                    check(!want_r, "a request to read is not lost");
                    r = Some(f);
                }
                want_r = false;
            }
            3 => {
                let mut f = w.take().unwrap_or_else(wr);
                if ready(&mut f) {
                    reach("write request");
                } else {
                    check(!want_w, "a request to write is not lost");
                    w = Some(f);
                }
                want_w = false;
            }
            4 => {
                // stop waiting for requests
                assume(r.is_some() | w.is_some());
                r = None;
                w = None;
            }
            _ => {
                // an attach is given up
                assume(att.is_some());
                att = None;
            }
        }
        // a waiting task is woken when the request arrives
        woken |= take_woken(4);
        if (r.is_some() & want_r) | (w.is_some() & want_w) {
            check(woken, "a task waiting for a request is woken");
        }
    }
    if let Some(mut f) = r {
        check(ready(&mut f) | !want_r, "a request to read is seen by who waits for it");
    }
    if let Some(mut f) = w {
        check(ready(&mut f) | !want_w, "a request to write is seen by who waits for it");
    }
    reach("end");
}
