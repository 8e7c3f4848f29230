//! The default worker task under a virtual clock, and the no-op worker.
use super::kit::*;
use cfg_noodle::worker_task::{default_worker_task, no_op_worker_task};
use core::task::{RawWaker, RawWakerVTable};
use core::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

// ---------------------------------------------------------------- virtual time and wakers

static NOW: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
pub const TASKS: usize = 6;
static WOKEN: [AtomicBool; TASKS] = [const { AtomicBool::new(false) }; TASKS];

struct Clock;
impl embassy_time_driver::Driver for Clock {
    fn now(&self) -> u64 {
        NOW.load(Relaxed)
    }
    fn schedule_wake(&self, at: u64, _waker: &Waker) {
        // only the worker (task 0) uses timers
        if at < NEXT.load(Relaxed) {
            NEXT.store(at, Relaxed);
        }
    }
}
embassy_time_driver::time_driver_impl!(static CLOCK: Clock = Clock);

fn vt_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VT)
}
fn vt_wake(p: *const ()) {
    WOKEN[p as usize - 1].store(true, Relaxed);
    super::h_sched::preempt();
}
fn vt_drop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_wake, vt_wake, vt_drop);
pub fn waker(task: usize) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new((task + 1) as *const (), &VT)) }
}
pub fn poll_as<F: Future + ?Sized>(f: &mut Pin<Box<F>>, task: usize) -> Option<F::Output> {
    let w = waker(task);
    let mut cx = Context::from_waker(&w);
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
pub fn take_woken(task: usize) -> bool {
    WOKEN[task].swap(false, Relaxed)
}
/// To be polled once more, as if its waker had been called.
pub fn mark_woken(task: usize) {
    WOKEN[task].store(true, Relaxed)
}
pub fn reset_tasks() {
    NOW.store(1_000, Relaxed);
    NEXT.store(u64::MAX, Relaxed);
    for w in &WOKEN {
        w.store(false, Relaxed);
    }
}

// ---------------------------------------------------------------- storage shared with the harness

/// The worker owns its storage; the harness looks at it between polls.
pub struct Sh(pub *mut Store);
impl NdlDataStorage for Sh {
    type Iter<'t>
        = It<'t, 48>
    where
        Self: 't;
    type Error = IoErr;
    async fn iter_elems<'t>(&'t mut self) -> Result<It<'t, 48>, IoErr> {
        unsafe { &mut *self.0 }.iter_elems().await
    }
    async fn push(&mut self, d: &Elem<'_>) -> Result<usize, IoErr> {
        unsafe { &mut *self.0 }.push(d).await
    }
    const MAX_ELEM_SIZE: usize = MAXB;
}

struct Stop<'a>(&'a AtomicBool);
impl Future for Stop<'_> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        if self.0.load(Relaxed) { Poll::Ready(()) } else { Poll::Pending }
    }
}

// ---------------------------------------------------------------- the world

const SEC: u64 = 1_000_000;

struct World<const K: usize> {
    st: *mut Store,
    list: &'static List<K>,
    stop: &'static AtomicBool,
    worker: Option<Pin<Box<dyn Future<Output = ()>>>>,
    nodes: [&'static StorageListNode<V>; 2],
    att: [Option<Att<V, K>>; 2],
    h: [Option<Handle<V, K>>; 2],
    val: [V; 2],
    on_list: [bool; 2],
    set: [bool; 2],
    /// the worker may be slow: an event can overtake it at an expired timer
    late: bool,
}
impl<const K: usize> World<K> {
    fn new(st: Store) -> Self {
        reset_tasks();
        let st: *mut Store = Box::leak(Box::new(st));
        let list = new_list::<K>();
        let stop = leak(AtomicBool::new(false));
        let buf: &'static mut [u8; MAXB] = Box::leak(Box::new([0u8; MAXB]));
        let w: Pin<Box<dyn Future<Output = ()>>> =
            Box::pin(default_worker_task(list, Sh(st), Stop(stop), &mut buf[..]));
        WOKEN[0].store(true, Relaxed);
        World {
            st,
            list,
            stop,
            worker: Some(w),
            nodes: [node("a"), node("b")],
            att: [None, None],
            h: [None, None],
            val: [V::default(); 2],
            on_list: [false; 2],
            set: [false; 2],
            late: false,
        }
    }
    fn st(&self) -> &'static mut Store {
        unsafe { &mut *self.st }
    }
    /// Poll whatever was woken until nothing is.
    fn settle(&mut self) {
        for _ in 0..24 {
            let mut idle = true;
            if take_woken(0) {
                idle = false;
                if let Some(w) = self.worker.as_mut()
                    && poll_as(w, 0).is_some()
                {
                    self.worker = None;
                }
            }
            for i in 0..2 {
                if take_woken(1 + i) {
                    idle = false;
                    self.poll_att(i);
                }
            }
            if idle {
                return;
            }
        }
        check(false, "the worker does not spin");
    }
    fn poll_att(&mut self, i: usize) {
        if let Some(f) = self.att[i].as_mut()
            && let Some(r) = poll_as(f, 1 + i)
        {
            self.att[i] = None;
            match r {
                Ok(h) => self.h[i] = Some(h),
                Err(_) => check(false, "attach succeeds"),
            }
        }
    }
    /// A storage operation of the worker is suspended.
    fn busy(&self) -> bool {
        self.st().faults.fired & (F_PUSH_HANG | F_READ_HANG | F_INV_HANG) != 0
    }
    fn stop(&mut self) {
        self.stop.store(true, Relaxed);
        WOKEN[0].store(true, Relaxed);
        self.settle();
        check(self.worker.is_none(), "the worker stops when told to");
    }
    /// Let virtual time pass until `to`, waking the worker at every expiring timer.
    fn until(&mut self, to: u64) {
        self.settle();
        for _ in 0..60 {
            let n = NEXT.load(Relaxed);
            if n > to {
                NOW.store(to, Relaxed);
                return;
            }
            if n > NOW.load(Relaxed) {
                NOW.store(n, Relaxed);
            }
            NEXT.store(u64::MAX, Relaxed);
            WOKEN[0].store(true, Relaxed);
            if self.late && flip("worker is late") {
                reach("late");
                NOW.store(to, Relaxed);
                return;
            }
            self.settle();
        }
        check(false, "the worker does not wake up without end");
    }
    fn attach(&mut self, i: usize) {
        self.on_list[i] = true;
        self.att[i] = Some(begin(self.nodes[i], self.list));
        self.poll_att(i);
        self.settle();
    }
    fn set(&mut self, i: usize, v: V) {
        if let Some(h) = self.h[i].as_mut() {
            self.val[i] = v;
            self.set[i] = true;
            set(h, &v);
            self.settle();
        }
    }
    /// The storage consists of up to `K` complete records.
    fn clean(&self) -> bool {
        let r = self.st().recs();
        let v = valid(r);
        let mut n = 0;
        for i in 0..v.n {
            n += v.r[i].e - v.r[i].s + 1;
        }
        (v.n <= K) & (n == r.len())
    }
    fn attached(&self) -> bool {
        (self.att[0].is_none()) & (self.att[1].is_none())
    }
    /// Every value that was set is in the newest record.
    fn durable(&self) -> bool {
        let st = self.st();
        let x = newest(st.recs());
        let mut ok = true;
        for i in 0..2 {
            if self.set[i] {
                match x {
                    Some(x) => ok &= holds(st.recs(), &x, &data_rec(["a", "b"][i], &self.val[i])),
                    None => ok = false,
                }
            }
        }
        ok
    }
}
fn preload(st: &mut Store) {
    if flip("stored") {
        put_record(st, 1, &[data_rec("b", &V([3, 4])), data_rec("a", &V([1, 2]))]);
    }
}
/// A symbolic time span, up to `max` seconds.
fn gap(max: u64) -> u64 {
    let g = any_u64("gap");
    assume(g <= max * SEC);
    g
}

// ---------------------------------------------------------------- C16

/// `n` events at symbolic times; then everything is done within a minute.
fn c16<const K: usize>(n: usize, max: u64, late: bool) {
    let mut st = Store::new();
    preload(&mut st);
    let mut w = World::<K>::new(st);
    w.settle();
    w.attach(0);
    for _ in 0..n {
        let t = NOW.load(Relaxed) + gap(max);
        w.late = late;
        w.until(t);
        w.late = false;
        match pick(3, "event") {
            0 => {
                assume(!w.on_list[1]);
                w.attach(1);
                reach("second attach");
            }
            1 => {
                assume(w.h[0].is_some());
                w.set(0, any_v("a"));
            }
            _ => {
                assume(w.h[1].is_some());
                w.set(1, any_v("b"));
            }
        }
    }
    let t = NOW.load(Relaxed);
    w.until(t + SEC);
    check(w.attached(), "every attach completes within a second");
    w.until(t + 60 * SEC);
    check(w.durable(), "every value set is durable within a minute of the last event");
    if w.set[0] | w.set[1] {
        reach("durable");
    }
    let p = w.st().pushes;
    w.until(t + 400 * SEC);
    check(w.st().pushes == p && w.durable(), "nothing is written when nothing changes");
    check(w.clean(), "no more than the configured number of records remains");
    for i in 0..2 {
        if let Some(h) = w.h[i].as_ref()
            && w.set[i]
        {
            check(veq(&h.load(), &w.val[i]), "the values in memory are the ones set");
        }
    }
    reach("end");
}
pub fn c16_two() {
    c16::<2>(2, 200, false)
}
pub fn c16_three() {
    c16::<1>(3, 200, false)
}
/// What is not needed any more is removed: soon after a change, and when nothing changes two
/// minutes after the first read.
fn c16_cleaning<const K: usize>(n: usize, max: u64) {
    let mut st = Store::new();
    let d = [data_rec("b", &V([3, 4])), data_rec("a", &V([1, 2]))];
    match pick(4, "storage") {
        0 => {
            for q in 1..=K as u32 + 1 {
                put_record(&mut st, q, &d);
            }
        }
        1 => {
            put_record(&mut st, 1, &d);
            st.put(Rec::Start(2));
            st.put(d[0]);
        }
        2 => {
            st.put(Rec::Junk);
            st.put(Rec::Start(7));
            st.put(d[1]);
            st.put(Rec::End(7, 0));
            put_record(&mut st, 1, &d);
        }
        _ => st.put(d[0]),
    }
    let mut w = World::<K>::new(st);
    let first = gap(max);
    w.until(NOW.load(Relaxed) + first);
    w.attach(0);
    let t0 = NOW.load(Relaxed);
    for _ in 0..n {
        w.until(NOW.load(Relaxed) + gap(max));
        if !w.on_list[1] && flip("attach") {
            w.attach(1);
        } else {
            assume(w.h[0].is_some());
            w.set(0, any_v("a"));
        }
    }
    if w.set[0] {
        w.until(NOW.load(Relaxed) + 60 * SEC);
        check(w.durable(), "every value set is durable within a minute of the last event");
        check(w.clean(), "what is not needed is removed within a minute of a change");
        reach("after a change");
    } else {
        // two minutes after a read, which may be started late by the attach of the other node
        let t = NOW.load(Relaxed).max(t0) + 150 * SEC;
        w.until(t);
        check(w.clean(), "what is not needed is removed although nothing changes");
        reach("without a change");
    }
    reach("end");
}
pub fn c16_clean1() {
    c16_cleaning::<1>(1, 200)
}
pub fn c16_clean2() {
    c16_cleaning::<2>(2, 200)
}
/// Three events that follow each other closely: around the ends of the two debounce times.
pub fn c16_close() {
    c16::<1>(3, 11, false)
}
pub fn c16_close4() {
    c16::<1>(4, 11, false)
}
/// As `c16_two`, with events that arrive at expired timers before the worker runs.
pub fn c16_late() {
    c16::<2>(2, 130, true)
}
pub fn c16_four() {
    c16::<2>(4, 130, false)
}

/// A transient storage error: the next change gets everything done.
fn c16_fault<const K: usize>(n: usize, max: u64) {
    let mut st = Store::new();
    preload(&mut st);
    st.faults = Faults::new(F_PUSH_ERR | F_READ_ERR | F_INV_ERR, 1);
    let mut w = World::<K>::new(st);
    w.settle();
    w.attach(0);
    for _ in 0..n {
        let t = NOW.load(Relaxed) + gap(max);
        w.until(t);
        match pick(2, "event") {
            0 => {
                assume(!w.on_list[1]);
                w.attach(1);
            }
            _ => {
                assume(w.h[0].is_some());
                w.set(0, any_v("a"));
            }
        }
    }
    let t = NOW.load(Relaxed);
    w.until(t + 200 * SEC);
    if w.st().faults.fired != 0 {
        reach("error");
    }
    w.st().faults.off();
    // the storage works again; something new happens
    if w.h[0].is_some() {
        w.set(0, any_v("a"));
        reach("set after");
    } else {
        assume(!w.on_list[1]);
        w.attach(1);
        reach("attach after");
    }
    let t = NOW.load(Relaxed);
    w.until(t + 60 * SEC);
    check(w.attached(), "after an error the next event completes all attaches");
    check(w.durable(), "after an error the next change makes all values durable");
    if w.h[0].is_some() && !w.set[0] {
        let v = w.h[0].as_ref().unwrap().load();
        let stored = newest(w.st().recs()).is_some();
        check(veq(&v, &if stored { V([1, 2]) } else { V::default() }), "a stored value is loaded");
    }
    reach("end");
}
/// Both nodes attached before the worker first runs, one failing storage operation; then a change
/// of any node that is loaded, or an attach begun anew, gets everything done.
fn c16_both_on<const K: usize>() {
    let mut st = Store::new();
    if flip("stored") {
        put_record(&mut st, 1, &[data_rec("b", &V([3, 4])), data_rec("a", &V([1, 2]))]);
    }
    let stored = newest(st.recs()).is_some();
    st.faults = Faults::new(F_PUSH_ERR | F_READ_ERR | F_INV_ERR, 1);
    let mut w = World::<K>::new(st);
    if flip("worker runs first") {
        w.settle();
    }
    for i in 0..2 {
        w.on_list[i] = true;
        w.att[i] = Some(begin(w.nodes[i], w.list));
        w.poll_att(i);
    }
    w.until(NOW.load(Relaxed) + gap(200));
    if w.st().faults.fired != 0 {
        reach("error");
    }
    w.st().faults.off();
    let i = pick(2, "which") as usize;
    if w.h[i].is_some() {
        if w.h[1 - i].is_none() {
            reach("set with another one waiting");
        }
        w.set(i, any_v("value"));
    } else {
        // nobody has a handle yet: an attach is cancelled and begun again
        assume(w.h[1 - i].is_none());
        w.att[i] = None;
        w.attach(i);
        reach("attach after");
    }
    w.until(NOW.load(Relaxed) + 60 * SEC);
    check(w.attached(), "after an error the next event completes all attaches");
    check(w.durable(), "after an error the next change makes all values durable");
    for i in 0..2 {
        if let Some(h) = w.h[i].as_ref()
            && !w.set[i]
        {
            let want = if stored { [V([1, 2]), V([3, 4])][i] } else { V::default() };
            check(veq(&h.load(), &want), "a stored value is loaded");
        }
    }
    reach("end");
}
pub fn c16_both() {
    c16_both_on::<2>()
}
/// A transient storage error, then the stop signal at any time.
fn c16_error_stopped<const K: usize>(n: usize, max: u64) {
    let mut st = Store::new();
    preload(&mut st);
    st.faults = Faults::new(F_PUSH_ERR | F_READ_ERR | F_INV_ERR, 1);
    let mut w = World::<K>::new(st);
    w.settle();
    w.attach(0);
    for i in 0..n {
        let t = NOW.load(Relaxed) + gap(max);
        w.until(t);
        // without an error: see `c16_stopped`
        assume(i + 1 < n || w.st().faults.fired != 0);
        match pick(2, "event") {
            0 => {
                assume(!w.on_list[1]);
                w.attach(1);
                if w.st().faults.fired != 0 {
                    reach("attach after");
                }
            }
            _ => {
                assume(w.h[0].is_some());
                w.set(0, any_v("a"));
                if w.st().faults.fired != 0 {
                    reach("set after");
                }
            }
        }
    }
    let t = NOW.load(Relaxed) + gap(max);
    w.until(t);
    w.st().faults.off();
    w.stop();
    check(w.durable(), "pending values are written before the worker stops");
    if w.set[0] {
        reach("flushed");
    }
    reach("end");
}
pub fn c16_error_stop2() {
    c16_error_stopped::<2>(2, 150)
}
pub fn c16_error_stop3() {
    c16_error_stopped::<2>(3, 150)
}
pub fn c16_error1() {
    c16_fault::<2>(1, 200)
}
pub fn c16_error2() {
    c16_fault::<2>(2, 130)
}

/// The stop signal at any time: pending values are flushed before the worker returns.
fn c16_stopped<const K: usize>(n: usize, max: u64) {
    let mut st = Store::new();
    preload(&mut st);
    let mut w = World::<K>::new(st);
    w.settle();
    w.attach(0);
    for _ in 0..n {
        let t = NOW.load(Relaxed) + gap(max);
        w.until(t);
        match pick(3, "event") {
            0 => {
                assume(!w.on_list[1]);
                w.attach(1);
            }
            1 => {
                assume(w.h[0].is_some());
                w.set(0, any_v("a"));
            }
            _ => {
                assume(w.h[1].is_some());
                w.set(1, any_v("b"));
            }
        }
    }
    let t = NOW.load(Relaxed) + gap(max);
    w.until(t);
    let waiting = !w.attached();
    w.stop();
    check(w.durable(), "pending values are written before the worker stops");
    if w.set[0] | w.set[1] {
        reach("flushed");
        if waiting {
            reach("flushed while attaching");
        }
    } else if waiting {
        reach("stopped while attaching");
    }
    reach("end");
}
/// The stop signal fires while any storage operation of the worker is under way.
fn c16_stopped_busy<const K: usize>(n: usize, max: u64) {
    let mut st = Store::new();
    preload(&mut st);
    st.faults = Faults::new(F_PUSH_HANG | F_READ_HANG | F_INV_HANG, 1);
    let mut w = World::<K>::new(st);
    w.settle();
    w.attach(0);
    for i in 0..n {
        let t = NOW.load(Relaxed) + if i == 0 { 5 * SEC } else { gap(max) };
        w.until(t);
        if w.worker.is_none() || w.busy() {
            break;
        }
        if i > 0 && !w.on_list[1] && flip("attach") {
            w.attach(1);
        } else {
            assume(w.h[0].is_some());
            w.set(0, any_v("a"));
        }
    }
    let t = NOW.load(Relaxed) + 150 * SEC;
    w.until(t);
    let busy = w.busy();
    if busy {
        reach("stopped during an operation");
    }
    w.st().faults.off();
    w.stop();
    check(w.durable(), "pending values are written before the worker stops");
    if busy && w.set[0] {
        reach("flushed");
    }
    reach("end");
}
pub fn c16_stop_busy1() {
    c16_stopped_busy::<2>(1, 0)
}
pub fn c16_stop_busy2() {
    c16_stopped_busy::<1>(2, 150)
}
pub fn c16_stop1() {
    c16_stopped::<2>(1, 200)
}
pub fn c16_stop2() {
    c16_stopped::<1>(2, 150)
}

/// One storage operation takes its time; meanwhile nodes are attached and values set.
fn c16_slow<const K: usize>(n: usize, max: u64, stopping: bool) {
    let mut st = Store::new();
    preload(&mut st);
    st.faults = Faults::new(F_SLOW, 1);
    let mut w = World::<K>::new(st);
    w.settle();
    w.attach(0);
    let mut pending: [Option<Pin<Box<dyn Future<Output = Handle<V, K>>>>>; 2] = [None, None];
    for i in 0..n + 1 {
        // the last event: the operation goes on
        let ev = if i == n { 3 } else { pick(4, "event") };
        let busy = SLOW.load(Relaxed);
        let t = NOW.load(Relaxed) + if busy && i == n { SEC / 2 } else { gap(max) };
        w.until(t);
        // undisturbed operation is checked by `c16`
        assume(i == 0 || w.st().faults.fired != 0);
        match ev {
            0 => {
                assume(!w.on_list[1]);
                w.attach(1);
                if SLOW.load(Relaxed) {
                    reach("attached during an operation");
                }
            }
            1 | 2 => {
                let j = ev as usize - 1;
                assume(w.h[j].is_some());
                let mut h = w.h[j].take().unwrap();
                let v = any_v("value");
                w.val[j] = v;
                w.set[j] = true;
                let mut f: Pin<Box<dyn Future<Output = Handle<V, K>>>> = Box::pin(async move {
                    check(h.write(&v).await.is_ok(), "write to a live handle succeeds");
                    h
                });
                match poll_as(&mut f, 3 + j) {
                    Some(h) => w.h[j] = Some(h),
                    None => {
                        reach("set during an operation");
                        pending[j] = Some(f);
                    }
                }
                w.settle();
            }
            _ => {
                assume(i == n || SLOW.load(Relaxed));
                w.st().faults.off();
                GO_ON.store(true, Relaxed);
                if SLOW.load(Relaxed) {
                    WOKEN[0].store(true, Relaxed);
                }
                for _ in 0..3 {
                    w.settle();
                    for j in 0..2 {
                        if take_woken(3 + j)
                            && let Some(f) = pending[j].as_mut()
                            && let Some(h) = poll_as(f, 3 + j)
                        {
                            w.h[j] = Some(h);
                            pending[j] = None;
                        }
                    }
                }
                check(pending[0].is_none() & pending[1].is_none(), "every set completes");
            }
        }
    }
    if stopping {
        let t = NOW.load(Relaxed) + gap(max);
        w.until(t);
        w.stop();
        check(w.durable(), "pending values are written before the worker stops");
        reach("stopped");
    } else {
        let t = NOW.load(Relaxed);
        w.until(t + SEC);
        check(w.attached(), "every attach completes within a second");
        w.until(t + 60 * SEC);
        check(w.durable(), "every value set is durable within a minute of the last event");
    }
    for i in 0..2 {
        if let Some(h) = w.h[i].as_ref()
            && w.set[i]
        {
            check(veq(&h.load(), &w.val[i]), "the values in memory are the ones set");
        }
    }
    reach("end");
}
pub fn c16_slow2() {
    c16_slow::<2>(2, 130, false)
}
pub fn c16_slow3() {
    c16_slow::<1>(3, 130, false)
}
pub fn c16_slow_stop() {
    c16_slow::<2>(2, 130, true)
}
pub fn c16_slow_stop3() {
    c16_slow::<2>(3, 130, true)
}

/// The no-op worker completes every attach with the default.
pub fn c16_noop() {
    reset_tasks();
    let l = new_list::<2>();
    let mut w: Pin<Box<dyn Future<Output = ()>>> = Box::pin(async move {
        no_op_worker_task(l).await;
    });
    let ns = [node::<V>("a"), node::<V>("b")];
    let d = [any_v("default a"), any_v("default b")];
    let mut hs: [Option<Handle<V, 2>>; 2] = [None, None];
    WOKEN[0].store(true, Relaxed);
    if flip("worker first") {
        take_woken(0);
        check(poll_as(&mut w, 0).is_none(), "the worker runs on");
    }
    let first = pick(2, "first") as usize;
    for i in [first, 1 - first] {
        let mut f = super::h_node::begin_def(ns[i], l, d[i]);
        if poll_as(&mut f, 1).is_some() {
            check(false, "attach waits for the worker");
        }
        let mut done = None;
        for _ in 0..6 {
            if take_woken(0) {
                check(poll_as(&mut w, 0).is_none(), "the worker runs on");
            }
            if take_woken(1)
                && let Some(r) = poll_as(&mut f, 1)
            {
                done = Some(r);
                break;
            }
        }
        match done {
            Some(Ok(h)) => hs[i] = Some(h),
            _ => check(false, "every attach completes"),
        }
    }
    for i in 0..2 {
        let h = hs[i].as_mut().unwrap();
        check(veq(&h.load(), &d[i]), "the default is loaded");
        let v = any_v("new");
        set(h, &v);
        check(veq(&h.load(), &v), "values can be set");
    }
    // detached and attached again: the default again
    hs[0] = None;
    check(poll1(ns[0].detach(l)) == Some(Ok(())), "detach succeeds");
    let mut f = super::h_node::begin_def(ns[0], l, d[1]);
    check(poll_as(&mut f, 1).is_none(), "attach waits for the worker");
    for _ in 0..4 {
        if take_woken(0) {
            check(poll_as(&mut w, 0).is_none(), "the worker runs on");
        }
    }
    match poll_as(&mut f, 1) {
        Some(Ok(h)) => check(veq(&h.load(), &d[1]), "the default is loaded"),
        _ => check(false, "every attach completes"),
    }
    reach("end");
}
