//! Durability, atomicity, record selection, garbage collection, sequence numbers.
use super::kit::*;

/// Dispatch on the number of kept records.
macro_rules! with_k {
    ($k:expr, $f:ident $(, $a:expr)*) => {
        match $k { 1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*), _ => $f::<3>($($a),*) }
    };
}
pub(crate) use with_k;

// ------------------------------------------------------------------------------ C01 durability

/// Values of several types survive write, reboot, garbage collection and a second reboot.
pub fn c01_types() {
    let mut st: Store = Store::new();
    let (x, y, z, w) = (any_u32("u32"), P { a: any_u8("a"), b: any_bool("b") }, any_v("v"), any_u16("w"));
    let w = if flip("some") { Some(w) } else { None };
    let gc_first = flip("gc before reboot");
    {
        let l = new_list::<3>();
        let fs = (
            start(node::<u32>("num"), l),
            start(node::<P>("cfg/p"), l),
            start(node::<V>("v"), l),
            start(node::<Option<u16>>("opt"), l),
        );
        check(ok(&reads(l, &mut st)), "first read succeeds");
        let (mut a, mut b, mut c, mut d) = (finish(fs.0), finish(fs.1), finish(fs.2), finish(fs.3));
        set(&mut a, &x);
        set(&mut b, &y);
        set(&mut c, &z);
        set(&mut d, &w);
        check(ok(&writes(l, &mut st)), "write succeeds");
        if gc_first {
            check(ok(&garbage(l, &mut st)), "gc succeeds");
        }
        reach("written");
    }
    for _ in 0..2 {
        let l = new_list::<3>();
        let fs = (
            start(node::<u32>("num"), l),
            start(node::<P>("cfg/p"), l),
            start(node::<V>("v"), l),
            start(node::<Option<u16>>("opt"), l),
        );
        check(ok(&reads(l, &mut st)), "read after reboot succeeds");
        let (a, b, c, d) = (finish(fs.0), finish(fs.1), finish(fs.2), finish(fs.3));
        check(a.load() == x, "u32 survives");
        check(b.load() == y, "struct survives");
        check(veq(&c.load(), &z), "bytes survive");
        check(d.load() == w, "option survives");
        log("a", a.load() as u64);
        check(ok(&garbage(l, &mut st)), "gc succeeds");
    }
    reach("end");
}

/// Rounds of writes to either key, with reboots and optional garbage collection between them.
fn c01_rounds<const K: usize>(rounds: usize) {
    let mut st: Store = Store::new();
    let (mut va, mut vb) = (V::default(), V::default());
    let mut bt: Two<K> = boot2(&mut st).expect("boot");
    for i in 0..rounds {
        let w = pick(4, "who writes");
        if w & 1 != 0 {
            va = any_v("a");
            set(&mut bt.a, &va);
        }
        if w & 2 != 0 {
            vb = any_v("b");
            set(&mut bt.b, &vb);
        }
        check(flush(bt.list, &mut st, 3), "pending values can be written");
        if i + 1 == rounds || flip("reboot") {
            if flip("gc before reboot") {
                check(ok(&garbage(bt.list, &mut st)), "gc succeeds");
            }
            bt = boot2(&mut st).expect("boot");
            check(veq(&bt.a.load(), &va), "a: last written value after reboot");
            check(veq(&bt.b.load(), &vb), "b: last written value after reboot");
            reach("rebooted");
        }
    }
}
pub fn c01_rounds2() {
    let k = 1 + pick(3, "kept records");
    with_k!(k, c01_rounds, 2)
}
pub fn c01_rounds3() {
    let k = 1 + pick(3, "kept records");
    with_k!(k, c01_rounds, 3)
}
pub fn c01_rounds5() {
    let k = 1 + pick(3, "kept records");
    with_k!(k, c01_rounds, 5)
}

/// A third node whose attach is cancelled at some point, so that it has no owner, or is detached
/// again: the others are durable, and so is the third one's stored value.
fn c01_orphan_on<const K: usize>(_x: usize) {
    let mut st: Store = Store::new();
    let cv = any_v("stored c");
    let there = flip("c is stored");
    if there {
        put_record(&mut st, 3, &[data_rec("c", &cv)]);
    }
    let l = new_list::<K>();
    let (na, nb, nc) = (node::<V>("a"), node::<V>("b"), node::<V>("c"));
    // where in the list the third node comes
    let at = pick(3, "third node");
    let (mut fa, mut fb, mut fc) = (None, None, None);
    for i in 0..3 {
        if i == at {
            fc = Some(start(nc, l));
        }
        if i == 0 {
            fa = Some(start(na, l));
        } else if i == 1 {
            fb = Some(start(nb, l));
        }
    }
    let end = pick(3, "cancelled");
    if end == 0 {
        fc = None;
    }
    check(ok(&reads(l, &mut st)), "reading succeeds");
    let (mut a, mut b) = (finish(fa.unwrap()), finish(fb.unwrap()));
    let mut kept = there;
    match (end, fc) {
        (2, Some(f)) => {
            // it has its value, and loses its owner
            let h = finish(f);
            check(veq(&h.load(), &if there { cv } else { V::default() }), "stored value or default");
            drop(h);
            kept = true;
            reach("handle dropped");
        }
        (_, f) => {
            drop(f);
            reach("never completed");
        }
    }
    if flip("detached") {
        check(now(nc.detach(l)).is_ok(), "a node without owner can be detached");
        // what it holds is not part of the configuration any more
        kept = false;
    }
    let (va, vb) = (any_v("a"), any_v("b"));
    set(&mut a, &va);
    if flip("both") {
        set(&mut b, &vb);
    } else {
        assume(veq(&vb, &V::default()));
    }
    check(flush(l, &mut st, 4), "writing succeeds");
    let again = flip("collect");
    if again {
        check(ok(&garbage(l, &mut st)), "gc succeeds");
    }
    let x = newest(st.recs()).unwrap();
    check(x.e - x.s == 3 + kept as usize, "the record holds every attached node with a value");
    let l = new_list::<K>();
    let (fa, fb, fc) = (start(node::<V>("a"), l), start(node::<V>("b"), l), start(node::<V>("c"), l));
    check(ok(&reads(l, &mut st)), "reading succeeds");
    check(veq(&finish(fa).load(), &va), "a: last written value after reboot");
    check(veq(&finish(fb).load(), &vb), "b: last written value after reboot");
    let want = if there && kept { cv } else { V::default() };
    check(veq(&finish(fc).load(), &want), "c: the stored value is carried along");
    reach("end");
}
pub fn c01_orphan() { let k = 1 + pick(2, "kept records"); with_k!(k, c01_orphan_on, 0) }

/// Many nodes and more elements than fit a byte counter: every node has its own value after
/// several rounds, collections and reboots.
fn c01_big<const N: usize, const C: usize, const K: usize>(rounds: usize) {
    let keys: &'static [[u8; 3]; N] = leak(core::array::from_fn(|i| [b'k', b'a' + (i / 16) as u8, b'a' + (i % 16) as u8]));
    let st: &'static mut Store<C> = Box::leak(Box::new(Store::<C>::new()));
    let odd = pick(3, "changed node") as usize * (N / 2 - 1);
    let mut val: [V; N] = core::array::from_fn(|i| V([i as u8, 0]));
    for r in 0..rounds + 1 {
        let l = new_list::<K>();
        let mut f: [Option<Att<V, K>>; N] = [const { None }; N];
        let mut h: [Option<Handle<V, K>>; N] = [const { None }; N];
        for i in 0..N {
            f[i] = Some(start(node::<V>(core::str::from_utf8(&keys[i]).unwrap()), l));
        }
        check(ok(&reads(l, st)), "reading succeeds");
        for i in 0..N {
            let x = finish(f[i].take().unwrap());
            if r > 0 {
                check(veq(&x.load(), &val[i]), "every node: the last written value after reboot");
            }
            h[i] = Some(x);
        }
        if r == rounds {
            break;
        }
        check(ok(&garbage(l, st)), "gc succeeds");
        for i in 0..N {
            if r == 0 || i == odd || i % 7 == r {
                val[i] = if i == odd { any_v("value") } else { V([i as u8, r as u8]) };
                set(h[i].as_mut().unwrap(), &val[i]);
            }
        }
        check(flush(l, st, 3), "writing succeeds");
        let n = st.n;
        check(n == (r + 1).min(K + 1) * (N + 2), "the last records are kept");
        if n > 256 {
            reach("more than 256 elements");
        }
    }
    reach("end");
}
pub fn c01_many() {
    c01_big::<70, 300, 3>(5)
}
/// More nodes, and elements of one record, than fit a byte counter.
pub fn c01_wide() {
    c01_big::<260, 530, 1>(1)
}
pub fn c01_many_kept() {
    c01_big::<24, 300, 8>(10)
}

// ------------------------------------------------------------------------------ C02 atomicity

/// Boots, each cut short by up to `budget` faults overall; every boot must see a complete set.
fn c02<const K: usize>(mask: u32, budget: u32, boots: usize, preload: bool) {
    let mut st: Store = Store::new();
    // the last set known to be durable, and a set whose write was begun but not confirmed
    let mut cur = (V::default(), V::default());
    if preload {
        cur = (any_v("a0"), any_v("b0"));
        put_record(&mut st, 1, &[data_rec("b", &cur.1), data_rec("a", &cur.0)]);
    }
    let mut maybe: Option<(V, V)> = None;
    st.faults = Faults::new(mask, budget);
    for i in 0..boots + 1 {
        if i == boots {
            st.faults.off();
        }
        st.faults.hung = false;
        let Some(mut bt) = boot2::<K, 48>(&mut st) else {
            check(st.faults.fired != 0, "read fails only when the storage fails");
            continue;
        };
        let got = (bt.a.load(), bt.b.load());
        let is_cur = veq(&got.0, &cur.0) & veq(&got.1, &cur.1);
        match maybe {
            None => check(is_cur, "a boot sees the last confirmed set"),
            Some(m) => {
                let is_new = veq(&got.0, &m.0) & veq(&got.1, &m.1);
                check(is_cur | is_new, "a boot sees the old or the new set, never a mixture");
                reach("after an interrupted write");
            }
        }
        if i == boots {
            break;
        }
        cur = got;
        maybe = None;
        if flip("gc first") {
            let r = garbage(bt.list, &mut st);
            if st.faults.hung {
                continue;
            }
            let _ = r;
        }
        let new = (any_v("a"), any_v("b"));
        set(&mut bt.a, &new.0);
        set(&mut bt.b, &new.1);
        for _ in 0..2 {
            let p0 = st.pushes;
            let r = writes(bt.list, &mut st);
            if st.pushes != p0 {
                maybe = Some(new);
            }
            if ok(&r) {
                cur = new;
                maybe = None;
                reach("write confirmed");
                break;
            }
            if st.faults.hung {
                break;
            }
            if needs_gc(&r) {
                let _ = garbage(bt.list, &mut st);
                if st.faults.hung {
                    break;
                }
            } else {
                break;
            }
        }
    }
    reach("end");
}
const POWER: u32 = F_PUSH_HANG | F_INV_HANG;
pub fn c02_power1() {
    let k = 1 + pick(2, "kept records");
    with_k!(k, c02, POWER, 1, 1, true)
}
pub fn c02_power2() {
    let k = 1 + pick(2, "kept records");
    with_k!(k, c02, POWER, 2, 2, true)
}
pub fn c02_fresh() {
    c02::<2>(POWER | F_PUSH_ERR, 1, 2, false)
}
pub fn c02_errors() {
    c02::<2>(F_PUSH_ERR | F_INV_ERR | F_READ_ERR | F_READ_HANG, 1, 2, true)
}
pub fn c02_deep() {
    let k = 1 + pick(2, "kept records");
    with_k!(k, c02, POWER | F_PUSH_ERR | F_INV_ERR | F_READ_ERR, 2, 3, true)
}

// ------------------------------------------------------------------------------ C03 selection

/// One arbitrary storage element.
pub fn any_slot(kinds: u32) -> Rec {
    match pick(kinds, "element") {
        0 => {
            let q = any_u32("start seq");
            assume(q != 0);
            Rec::Start(q)
        }
        1 => {
            let q = any_u32("end seq");
            assume(q != 0);
            Rec::End(q, any_u32("end crc"))
        }
        2 => data_rec("a", &any_v("stored a")),
        3 => Rec::Junk,
        4 => data_rec("b", &any_v("stored b")),
        // key "a" with a value of another type
        5 => data_rec("a", &any_u8("stored a (u8)")),
        // arbitrary key/value bytes
        6 => {
            let b: [u8; 3] = any_bytes("raw");
            Rec::data(&[1, b[0], b[1], b[2]])
        }
        // key "a" in a longer, equally valid, CBOR form
        _ => {
            let v = any_v("stored a");
            Rec::data(&[1, 0x78, 1, b'a', 0x42, v.0[0], v.0[1]])
        }
    }
}
/// The value a fresh node with key `key` must load: `None` for the default.
pub fn expected_v(recs: &[Rec], key: &'static str) -> Option<V> {
    let r = newest(recs)?;
    let mut found: Option<Option<V>> = None;
    for i in r.s + 1..r.e {
        let b = recs[i].bytes();
        // independent of the code under test: split by hand
        let kl = key.len();
        let (hit, rest) = if b.len() >= 3 + kl && b[1] == 0x78 && b[2] as usize == kl {
            (&b[3..3 + kl] == key.as_bytes(), 3 + kl)
        } else if b.len() >= 2 + kl && b[1] as usize == 0x60 + kl {
            (&b[2..2 + kl] == key.as_bytes(), 2 + kl)
        } else {
            (false, 0)
        };
        if hit {
            // a record never holds a key twice
            assume(found.is_none());
            let v = &b[rest..];
            found = Some(if v.len() >= 3 && v[0] == 0x42 { Some(V([v[1], v[2]])) } else { None });
        }
    }
    found.flatten()
}
pub fn distinct_seqs(v: &Valid) {
    for i in 0..v.n {
        for j in 0..i {
            assume(v.r[i].seq != v.r[j].seq);
        }
    }
}
fn c03(n: usize, kinds: u32) {
    let mut st: Store = Store::new();
    for _ in 0..n {
        st.put(any_slot(kinds));
    }
    let before = st.items;
    let l = new_list::<2>();
    let fa = start(node::<V>("a"), l);
    check(ok(&reads(l, &mut st)), "reading any storage contents succeeds");
    let a = finish(fa);
    let fb = start(node::<V>("b"), l);
    check(ok(&reads(l, &mut st)), "reading again succeeds");
    let b = finish(fb);
    distinct_seqs(&valid(&before[..n]));
    let want = expected_v(&before[..n], "a");
    if want.is_some() {
        reach("value found");
    } else {
        reach("value not found");
    }
    check(veq(&a.load(), &want.unwrap_or_default()), "a comes from the newest valid record");
    let want = expected_v(&before[..n], "b");
    check(veq(&b.load(), &want.unwrap_or_default()), "b comes from the newest valid record");
    check(st.n == n && st.pushes == 0 && st.pops == 0, "reading does not change the storage");
}
pub fn c03_any4() { c03(4, 6) }
pub fn c03_any5() { c03(5, 5) }
pub fn c03_any6() { c03(6, 4) }
pub fn c03_any7() { c03(7, 4) }

/// `n` records with symbolic sequence numbers, each one possibly damaged.
pub fn any_records<const C: usize>(st: &mut Store<C>, n: usize, damage: bool) {
    any_records_in(st, n, damage, 1, 0xffff_ffef)
}
/// The same with numbers from a range.
pub fn any_records_in<const C: usize>(st: &mut Store<C>, n: usize, damage: bool, lo: u32, hi: u32) {
    for _ in 0..n {
        let q = any_u32("seq");
        assume(q >= lo && q <= hi);
        let dmg = if damage { pick(6, "damage") } else { 0 };
        // in pieces that are not a record by themselves the contents do not matter
        let v = if dmg == 1 || dmg == 5 { V([7, dmg as u8]) } else { any_v("stored a") };
        let d = data_rec("a", &v);
        let c = crc_of(&[d]);
        match dmg {
            0 => {
                st.put(Rec::Start(q));
                st.put(d);
                st.put(Rec::End(q, c));
            }
            1 => {
                st.put(Rec::Start(q));
                st.put(d);
            }
            2 => {
                st.put(Rec::Start(q));
                st.put(Rec::Junk);
                st.put(Rec::End(q, c));
            }
            3 => {
                st.put(Rec::Start(q));
                st.put(d);
                st.put(Rec::End(q, any_u32("other crc")));
            }
            4 => {
                let q2 = any_u32("other seq");
                assume(q2 >= lo && q2 <= hi);
                st.put(Rec::Start(q));
                st.put(d);
                st.put(Rec::End(q2, c));
            }
            _ => {
                st.put(d);
                st.put(Rec::End(q, c));
            }
        }
    }
}
fn c03_recs(n: usize, damage: bool) {
    let mut st: Store = Store::new();
    any_records(&mut st, n, damage);
    let n = st.n;
    let before = st.items;
    let l = new_list::<1>();
    let fa = start(node::<V>("a"), l);
    check(ok(&reads(l, &mut st)), "reading any storage contents succeeds");
    let a = finish(fa);
    distinct_seqs(&valid(&before[..n]));
    let want = expected_v(&before[..n], "a");
    if want.is_some() {
        reach("value found");
    }
    check(veq(&a.load(), &want.unwrap_or_default()), "a comes from the newest valid record");
    check(st.n == n && st.pushes == 0 && st.pops == 0, "reading does not change the storage");
}
pub fn c03_order3() { c03_recs(3, false) }
pub fn c03_damaged3() { c03_recs(3, true) }
pub fn c03_order4() { c03_recs(4, false) }
pub fn c03_damaged4() { c03_recs(4, true) }

// ------------------------------------------------------------------------------ many elements

/// Two records with leftovers before, between and after, so that the later one lies across or
/// beyond the 256th element. Returns what the newest holds for "a".
fn far(st: &mut Store<300>) -> ([usize; 4], V) {
    let fill = |st: &mut Store<300>, n: usize| {
        for i in 0..n {
            st.put(match i % 5 {
                0 => Rec::Junk,
                1 => Rec::Start(3),
                2 => Rec::End(3, 9),
                _ => data_rec("a", &V([9, i as u8])),
            });
        }
    };
    let (v, w) = (any_v("a"), any_v("old a"));
    let newer_last = flip("the newer record is the later one");
    let (x, y) = if newer_last { (w, v) } else { (v, w) };
    fill(st, 3);
    let s0 = st.n;
    put_record(st, if newer_last { 7 } else { 9 }, &[data_rec("b", &V([1, 2])), data_rec("a", &x)]);
    let e0 = st.n;
    let to = 250 + pick(9, "where the later record starts") as usize;
    fill(st, to - e0);
    st.put(Rec::Junk);
    let s1 = st.n;
    put_record(st, 8, &[data_rec("a", &y), data_rec("b", &V([3, 4]))]);
    let e1 = st.n;
    fill(st, 5);
    ([s0, e0, s1, e1], v)
}
pub fn c03_far() {
    let st: &'static mut Store<300> = Box::leak(Box::new(Store::new()));
    let (_, v) = far(st);
    let n = st.n;
    let t = boot2::<2, 300>(st).expect("reading succeeds");
    check(veq(&t.a.load(), &v), "the value of the newest record");
    check(st.n == n && st.pushes + st.pops == 0, "reading changes nothing");
    reach("end");
}
fn c04_far_k<const K: usize>() {
    let st: &'static mut Store<300> = Box::leak(Box::new(Store::new()));
    let (p, v) = far(st);
    let before: &'static Store<300> = leak(Store { items: st.items, ..Store::new() });
    let t = boot2::<K, 300>(st).expect("reading succeeds");
    let first_newest = before.items[p[0]..p[1]].iter().any(|r| matches!(r, Rec::Start(9)));
    check(ok(&garbage(t.list, st)), "gc succeeds");
    let mut j = 0;
    for i in 0..before.items.len() {
        let (in0, in1) = (i >= p[0] && i < p[1], i >= p[2] && i < p[3]);
        if (in0 && (K > 1 || first_newest)) || (in1 && (K > 1 || !first_newest)) {
            check(j < st.n, "a kept record lost an element");
            check(rec_eq(&before.items[i], &st.items[j]), "kept records are intact and in order");
            j += 1;
        }
    }
    check(j == st.n, "everything outside the kept records is removed");
    let t = boot2::<K, 300>(st).expect("reading succeeds");
    check(veq(&t.a.load(), &v), "the value of the newest record");
    reach("end");
}
pub fn c04_far() {
    let k = 1 + pick(2, "kept records");
    with_k!(k, c04_far_k)
}

// ------------------------------------------------------------------------------ C04 garbage

/// Which elements a garbage collection must leave, by the reference view.
pub fn kept(recs: &[Rec], k: usize) -> [bool; 48] {
    let v = valid(recs);
    let mut keep = [false; 48];
    for i in 0..v.n {
        let mut newer = 0;
        for j in 0..v.n {
            if v.r[j].seq > v.r[i].seq {
                newer += 1;
            }
        }
        if newer < k {
            for x in v.r[i].s..=v.r[i].e {
                keep[x] = true;
            }
        }
    }
    keep
}
pub fn check_kept<const C: usize>(before: &[Rec], st: &Store<C>, k: usize) {
    let keep = kept(before, k);
    let mut j = 0;
    for i in 0..before.len() {
        if keep[i] {
            check(j < st.n, "a kept record lost an element");
            check(rec_eq(&before[i], &st.items[j]), "kept records are intact and in order");
            j += 1;
        }
    }
    check(j == st.n, "everything outside the kept records is removed");
}
fn c04<const K: usize>(n: usize, kinds: u32) {
    let mut st: Store = Store::new();
    for _ in 0..n {
        st.put(any_slot(kinds));
    }
    let before = st.items;
    let l = new_list::<K>();
    check(ok(&reads(l, &mut st)), "read succeeds");
    distinct_seqs(&valid(&before[..n]));
    check(ok(&garbage(l, &mut st)), "gc succeeds");
    check_kept(&before[..n], &st, K);
    reach("collected");
    let m = st.n;
    check(ok(&garbage(l, &mut st)), "gc succeeds");
    check(st.n == m, "a second collection removes nothing");
}
pub fn c04_any4() { c04::<1>(4, 4) }
pub fn c04_any5() { c04::<1>(5, 4) }
pub fn c04_any6() { c04::<2>(6, 4) }
fn c04_recs<const K: usize>(n: usize, damage: bool) {
    let mut st: Store = Store::new();
    any_records(&mut st, n, damage);
    let n = st.n;
    let before = st.items;
    let l = new_list::<K>();
    check(ok(&reads(l, &mut st)), "read succeeds");
    distinct_seqs(&valid(&before[..n]));
    check(ok(&garbage(l, &mut st)), "gc succeeds");
    check_kept(&before[..n], &st, K);
    reach("collected");
}
pub fn c04_order4() { let k = 1 + pick(3, "kept records"); with_k!(k, c04_recs, 4, false) }
pub fn c04_damaged3() { let k = 1 + pick(2, "kept records"); with_k!(k, c04_recs, 3, true) }
pub fn c04_order5() { let k = 1 + pick(3, "kept records"); with_k!(k, c04_recs, 5, false) }
pub fn c04_damaged4() { let k = 1 + pick(3, "kept records"); with_k!(k, c04_recs, 4, true) }

/// A collection cut short anywhere loses no kept record; repeating it finishes the job.
fn c04_fault<const K: usize>(n: usize, damage: bool, budget: u32) {
    let mut st: Store = Store::new();
    any_records(&mut st, n, damage);
    let n = st.n;
    let before = st.items;
    let mut l = new_list::<K>();
    check(ok(&reads(l, &mut st)), "read succeeds");
    distinct_seqs(&valid(&before[..n]));
    st.faults = Faults::new(F_INV_ERR | F_INV_HANG | F_READ_ERR | F_READ_HANG, budget);
    let keep = kept(&before[..n], K);
    for _ in 0..budget + 1 {
        let r = garbage(l, &mut st);
        // every kept element is still there, in order
        let mut j = 0;
        for i in 0..n {
            if keep[i] {
                while j < st.n && !rec_eq(&before[i], &st.items[j]) {
                    j += 1;
                }
                check(j < st.n, "an interrupted collection keeps the newest records");
                j += 1;
            }
        }
        if ok(&r) {
            break;
        }
        reach("interrupted");
        if flip("reboot") {
            l = new_list::<K>();
        }
        for _ in 0..budget + 1 {
            if ok(&reads(l, &mut st)) {
                break;
            }
        }
    }
    st.faults.off();
    check(ok(&reads(l, &mut st)), "read succeeds");
    check(ok(&garbage(l, &mut st)), "gc succeeds");
    check_kept(&before[..n], &st, K);
    reach("completed");
}
pub fn c04_fault2() { let k = 1 + pick(2, "kept records"); with_k!(k, c04_fault, 2, true, 1) }
pub fn c04_fault3() { let k = 1 + pick(2, "kept records"); with_k!(k, c04_fault, 3, false, 1) }
pub fn c04_fault_deep() { let k = 1 + pick(2, "kept records"); with_k!(k, c04_fault, 2, true, 2) }
pub fn c04_fault_deep3() { let k = 1 + pick(2, "kept records"); with_k!(k, c04_fault, 3, false, 2) }

/// Records written by the system itself: after each write and collection exactly the newest
/// `min(K, written)` records remain.
fn c04_rounds<const K: usize>(rounds: usize, reboots: u32) {
    let mut st: Store = Store::new();
    let mut bt: Two<K> = boot2(&mut st).expect("boot");
    let mut hist: [[Rec; 4]; 10] = [[Rec::Junk; 4]; 10];
    let mut reboots = reboots;
    let _ = garbage(bt.list, &mut st);
    for i in 0..rounds {
        let n0 = st.n;
        let (va, vb) = (any_v("a"), any_v("b"));
        set(&mut bt.a, &va);
        set(&mut bt.b, &vb);
        check(ok(&writes(bt.list, &mut st)), "write succeeds after a collection");
        check(st.n == n0 + 4, "a write appends one record");
        for j in 0..4 {
            hist[i][j] = st.items[n0 + j];
        }
        if reboots > 0 && flip("reboot") {
            reboots -= 1;
            bt = boot2(&mut st).expect("boot");
        }
        check(ok(&garbage(bt.list, &mut st)), "gc succeeds");
        let first = if i + 1 > K { i + 1 - K } else { 0 };
        check(st.n == 4 * (i + 1 - first), "exactly the newest records remain");
        for r in first..=i {
            for j in 0..4 {
                check(rec_eq(&hist[r][j], &st.items[(r - first) * 4 + j]), "kept records are intact");
            }
        }
    }
    reach("end");
}
pub fn c04_rounds4() { let k = 1 + pick(3, "kept records"); with_k!(k, c04_rounds, 4, 4) }
pub fn c04_rounds6() { let k = 1 + pick(3, "kept records"); with_k!(k, c04_rounds, 6, 6) }
/// More kept records than usual.
pub fn c04_kept() {
    match pick(4, "kept records") {
        0 => c04_rounds::<4>(6, 1),
        1 => c04_rounds::<5>(7, 1),
        2 => c04_rounds::<6>(8, 1),
        _ => c04_rounds::<8>(10, 1),
    }
}

// ------------------------------------------------------------------------------ C05 sequence

fn c05<const K: usize>(n: usize, damage: bool, rounds: usize, mask: u32, budget: u32) {
    c05_in::<K>(n, damage, rounds, mask, budget, 1, 0xffff_ffef)
}
fn c05_in<const K: usize>(n: usize, damage: bool, rounds: usize, mask: u32, budget: u32, lo: u32, hi: u32) {
    let mut st: Store = Store::new();
    any_records_in(&mut st, n, damage, lo, hi);
    st.faults = Faults::new(mask, budget);
    let mut bt: Option<Two<K>> = None;
    for _ in 0..rounds {
        if bt.is_none() || flip("reboot") {
            bt = boot2::<K, 48>(&mut st);
        }
        let Some(t) = bt.as_mut() else { continue };
        let v = any_v("a");
        set(&mut t.a, &v);
        for _ in 0..3 {
            let n0 = st.n;
            let p0 = st.pushes;
            let top = newest(st.recs()).map(|r| r.seq);
            let r = writes(t.list, &mut st);
            if st.pushes != p0 {
                reach("wrote");
                if st.n > n0
                    && let Rec::Start(q) = st.items[n0]
                {
                    if let Some(top) = top {
                        check(q > top, "a new record is numbered above every valid record");
                    }
                    if q == u32::MAX {
                        reach("the last number");
                    }
                }
            }
            if ok(&r) {
                // the record just confirmed is the newest there is
                let x = newest(st.recs());
                match x {
                    Some(x) => check(
                        holds(st.recs(), &x, &data_rec("a", &v)),
                        "the record just written is the newest",
                    ),
                    None => check(false, "the record just written is the newest"),
                }
                break;
            }
            if needs_gc(&r) {
                let _ = garbage(t.list, &mut st);
            } else {
                let _ = reads(t.list, &mut st);
            }
        }
    }
    reach("end");
}
pub fn c05_order3() { let k = 1 + pick(2, "kept records"); with_k!(k, c05, 3, false, 2, 0, 0) }
/// Up to the very last number, after which nothing can be written any more.
pub fn c05_last() { c05_in::<2>(2, false, 3, 0, 0, u32::MAX - 2, u32::MAX) }
pub fn c05_last_damaged() { c05_in::<1>(2, true, 2, 0, 0, u32::MAX - 1, u32::MAX) }
pub fn c05_damaged2() { c05::<2>(2, true, 2, 0, 0) }
pub fn c05_faults() {
    c05::<2>(2, false, 2, F_READ_ERR | F_READ_HANG | F_PUSH_ERR | F_INV_ERR, 1)
}
pub fn c05_deep() {
    let k = 1 + pick(2, "kept records");
    with_k!(k, c05, 2, true, 3, F_READ_ERR | F_READ_HANG | F_PUSH_ERR | F_PUSH_HANG | F_INV_ERR, 2)
}
