//! The flash backend: `cfg_noodle::flash::Flash` over the real sequential-storage queue over a
//! NOR flash whose operations can fail or be cut short.
use super::h_gate::{any_blob, beq, Blob};
use super::kit::*;
use cfg_noodle::flash::Flash;
use cfg_noodle::sequential_storage::{
    cache::{CacheImpl, NoCache, PagePointerCache, PageStateCache},
    queue::{QueueConfig, QueueStorage},
};
use embedded_storage_async::nor_flash::{
    ErrorType, MultiwriteNorFlash, NorFlash, NorFlashError, NorFlashErrorKind, ReadNorFlash,
};

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct NorErr;
impl NorFlashError for NorErr {
    fn kind(&self) -> NorFlashErrorKind {
        NorFlashErrorKind::Other
    }
}

pub const N_WRITE_ERR: u32 = 1; // a write fails having written some of its words
pub const N_WRITE_HANG: u32 = 2; // power is lost during a write
pub const N_ERASE_ERR: u32 = 4;
pub const N_ERASE_HANG: u32 = 8;
pub const N_READ_ERR: u32 = 16;
pub const N_READ_HANG: u32 = 32;

/// `W` bytes written at once, `R` read at once, pages of `E`, `N` bytes in total. What one boot
/// leaves in `mem` the next one finds.
pub struct Nor<const W: usize, const R: usize, const E: usize, const N: usize> {
    pub mem: &'static mut [u8; N],
    pub mask: u32,
    pub budget: u32,
    at: u16,
    ctr: u16,
    drawn: bool,
    pub fired: bool,
    pub writes: usize,
    /// what the writes of the current push cover (page markers aside)
    pub lo: u32,
    pub hi: u32,
    pub erases: usize,
    /// the part the backend was given
    pub own: (usize, usize),
}
impl<const W: usize, const R: usize, const E: usize, const N: usize> Nor<W, R, E, N> {
    pub fn new() -> Self {
        Self::on(leak_mut([0xff; N]))
    }
    pub fn on(mem: &'static mut [u8; N]) -> Self {
        Nor {
            mem,
            mask: 0,
            budget: 0,
            at: 0,
            ctr: 0,
            drawn: false,
            fired: false,
            writes: 0,
            lo: u32::MAX,
            hi: 0,
            erases: 0,
            own: (0, N),
        }
    }
    fn fault(&mut self, kinds: u32) -> u32 {
        let m = self.mask & kinds;
        if self.budget == 0 || m == 0 {
            return 0;
        }
        if !self.drawn {
            self.drawn = true;
            self.at = any_u16("faulty flash operation");
            self.ctr = 0;
        }
        let here = self.ctr == self.at;
        self.ctr += 1;
        if !here {
            return 0;
        }
        self.drawn = false;
        self.budget -= 1;
        self.fired = true;
        let mut m = m;
        for _ in 0..pick(m.count_ones(), "fault kind") {
            m &= m - 1;
        }
        m & m.wrapping_neg()
    }
}
pub fn leak_mut<T>(t: T) -> &'static mut T {
    Box::leak(Box::new(t))
}
impl<const W: usize, const R: usize, const E: usize, const N: usize> ErrorType for Nor<W, R, E, N> {
    type Error = NorErr;
}
impl<const W: usize, const R: usize, const E: usize, const N: usize> ReadNorFlash for Nor<W, R, E, N> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), NorErr> {
        let (o, n) = (offset as usize, bytes.len());
        check(o % R == 0 && n % R == 0 && o + n <= N, "reads are aligned and in range");
        match self.fault(N_READ_ERR | N_READ_HANG) {
            0 => {}
            N_READ_ERR => return Err(NorErr),
            _ => Never.await,
        }
        bytes.copy_from_slice(&self.mem[o..o + n]);
        Ok(())
    }
    fn capacity(&self) -> usize {
        N
    }
}
impl<const W: usize, const R: usize, const E: usize, const N: usize> NorFlash for Nor<W, R, E, N> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), NorErr> {
        let (f, t) = (from as usize, to as usize);
        check(f % E == 0 && t % E == 0 && f <= t && t <= N, "erases are aligned and in range");
        check(self.own.0 <= f && t <= self.own.1, "nothing outside the given range is erased");
        let k = self.fault(N_ERASE_ERR | N_ERASE_HANG);
        self.erases += 1;
        if k != 0 {
            // nothing, the first half, or everything
            let upto = f + (t - f) / 2 * pick(3, "erased") as usize;
            for x in self.mem[f..upto].iter_mut() {
                *x = 0xff;
            }
            if k == N_ERASE_HANG {
                Never.await;
            }
            return Err(NorErr);
        }
        for x in self.mem[f..t].iter_mut() {
            *x = 0xff;
        }
        Ok(())
    }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), NorErr> {
        let (o, n) = (offset as usize, bytes.len());
        check(o % W == 0 && n % W == 0 && o + n <= N, "writes are aligned and in range");
        check(self.own.0 <= o && o + n <= self.own.1, "nothing outside the given range is written");
        self.writes += 1;
        if o % E != 0 && (o + W.max(R)) % E != 0 || n > W.max(R) {
            self.lo = self.lo.min(offset);
            self.hi = self.hi.max(offset + n as u32);
        }
        let k = self.fault(N_WRITE_ERR | N_WRITE_HANG);
        let words = n / W;
        let upto = if k != 0 { fix(pick(words as u32 + 1, "words written") as u64) as usize * W } else { n };
        for i in 0..upto {
            self.mem[o + i] &= bytes[i];
        }
        match k {
            0 => Ok(()),
            N_WRITE_ERR => Err(NorErr),
            _ => {
                Never.await;
                Ok(())
            }
        }
    }
}
impl<const W: usize, const R: usize, const E: usize, const N: usize> MultiwriteNorFlash for Nor<W, R, E, N> {}

// ---------------------------------------------------------------- elements

#[derive(Clone)]
enum El {
    S(u32),
    D(Vec<u8>),
    E(u32, u32),
    /// bytes that are no element
    J(Vec<u8>),
}
impl El {
    fn len(&self) -> usize {
        match self {
            El::S(_) => 5,
            El::D(v) | El::J(v) => v.len(),
            El::E(..) => 9,
        }
    }
}
fn some_el(max: u32) -> El {
    match pick(3, "kind") {
        0 => {
            let s = any_u32("seq");
            assume(s != 0);
            El::S(s)
        }
        1 => {
            let n = 2 + pick(max, "data length") as usize;
            let mut v = vec![0x5a; n];
            v[0] = 1;
            v[1] = any_u8("data");
            v[n - 1] = any_u8("data");
            El::D(v)
        }
        _ => {
            let s = any_u32("seq");
            assume(s != 0);
            El::E(s, any_u32("crc"))
        }
    }
}
fn data_el(n: usize) -> El {
    let mut v = vec![0x5a; n];
    v[0] = 1;
    v[1] = any_u8("data");
    v[n - 1] = any_u8("data");
    El::D(v)
}
/// No two of these are the same.
fn tagged(i: usize, n: usize) -> El {
    let mut v = vec![0x5a; n];
    v[0] = 1;
    v[1] = i as u8;
    v[n - 1] = any_u8("data");
    El::D(v)
}
async fn push<S: NdlDataStorage>(f: &mut S, e: &El) -> Result<usize, S::Error> {
    match e {
        El::S(s) => f.push(&Elem::Start { seq_no: NonZeroU32::new(*s).unwrap() }).await,
        El::D(v) => f.push(&Elem::Data { data: SerData::from_existing(v).unwrap() }).await,
        El::E(s, c) => f.push(&Elem::End { seq_no: NonZeroU32::new(*s).unwrap(), calc_crc: *c }).await,
        El::J(_) => panic!("harness: pushed by the queue only"),
    }
}
fn same_el(e: &El, d: Option<Elem<'_>>) -> bool {
    match (e, d) {
        (El::J(_), None) => true,
        (El::S(s), Some(Elem::Start { seq_no })) => *s == seq_no.get(),
        (El::E(s, c), Some(Elem::End { seq_no, calc_crc })) => (*s == seq_no.get()) & (*c == calc_crc),
        (El::D(v), Some(Elem::Data { data })) => {
            if v.len() != data.key_val().len() + 1 {
                return false;
            }
            let mut d = v[0] ^ data.hdr();
            for i in 1..v.len() {
                d |= v[i] ^ data.key_val()[i - 1];
            }
            d == 0
        }
        _ => false,
    }
}
/// Exactly `els`, with the given sizes, in order.
async fn holds_exactly<S: NdlDataStorage>(f: &mut S, els: &[(El, usize)], what: &'static str) {
    let mut buf = vec![0u8; S::MAX_ELEM_SIZE];
    let Ok(mut it) = f.iter_elems().await else {
        return check(false, "iterating succeeds");
    };
    for (e, size) in els {
        match it.next(&mut buf).await {
            Ok(Some(n)) => {
                check(same_el(e, n.data()), what);
                check(n.len() == *size, "the size of an element is the same when read back");
            }
            _ => check(false, what),
        }
    }
    check(matches!(it.next(&mut buf).await, Ok(None)), what);
}

// ---------------------------------------------------------------- C12

/// Push elements, read them back, invalidate any of them, push more, over page boundaries.
fn cycle<C: CacheImpl, const W: usize, const R: usize, const E: usize, const N: usize>(
    cache: C,
    n: usize,
    lens: u32,
) {
    let mut f = Flash::new(Nor::<W, R, E, N>::new(), 0..N as u32, cache);
    let mut els: Vec<(El, usize)> = vec![];
    let go = async {
        for _ in 0..n {
            let e = some_el(lens);
            f.flash().lo = u32::MAX;
            f.flash().hi = 0;
            match push(&mut f, &e).await {
                Ok(size) => {
                    let used = (f.flash().hi - f.flash().lo) as usize;
                    check(size == used, "the size reported is what the element takes up");
                    check(size >= e.len() + 8, "the size includes the overhead");
                    els.push((e, size));
                }
                Err(_) => check(false, "what fits is stored"),
            }
        }
        holds_exactly(&mut f, &els, "what was pushed is read back").await;
        // invalidate some
        let mut kept = vec![];
        {
            let mut buf = vec![0u8; Flash::<Nor<W, R, E, N>, C>::MAX_ELEM_SIZE];
            let Ok(mut it) = f.iter_elems().await else {
                return check(false, "iterating succeeds");
            };
            for e in els.iter() {
                match it.next(&mut buf).await {
                    Ok(Some(n)) => {
                        check(same_el(&e.0, n.data()), "what was pushed is read back");
                        if flip("invalidate") {
                            check(n.invalidate().await.is_ok(), "invalidating succeeds");
                            reach("invalidated");
                        } else {
                            kept.push(e.clone());
                        }
                    }
                    _ => check(false, "what was pushed is read back"),
                }
            }
            check(matches!(it.next(&mut buf).await, Ok(None)), "what was pushed is read back");
        }
        holds_exactly(&mut f, &kept, "exactly the invalidated elements are gone").await;
        let e = data_el(3);
        if let Ok(s) = push(&mut f, &e).await {
            kept.push((e, s));
            reach("pushed again");
        }
        holds_exactly(&mut f, &kept, "an element is stored after the others").await;
        // a new instance over the same flash finds the same
        let mut mem = leak_mut([0u8; N]);
        mem.copy_from_slice(&f.flash().mem[..]);
        let mut g = Flash::new(Nor::<W, R, E, N>::on(mem), 0..N as u32, NoCache::new());
        holds_exactly(&mut g, &kept, "a new boot reads the same elements").await;
        mem = leak_mut([0u8; N]);
        let _ = mem;
    };
    if poll1(go).is_none() {
        check(false, "no operation waits forever");
    }
    reach("end");
}
pub fn c12_w4() {
    cycle::<_, 4, 1, 64, 192>(NoCache::new(), 3, 3)
}
pub fn c12_w1r4() {
    cycle::<_, 1, 4, 64, 128>(NoCache::new(), 3, 2)
}
pub fn c12_w16() {
    cycle::<_, 16, 1, 128, 256>(NoCache::new(), 3, 2)
}
pub fn c12_w8_cache() {
    cycle::<_, 8, 8, 64, 256>(PagePointerCache::<4>::new(), 3, 3)
}
pub fn c12_state_cache() {
    cycle::<_, 4, 4, 64, 192>(PageStateCache::<3>::new(), 3, 3)
}

/// Any bytes stored by something else.
fn decode(max: u32) {
    type F = Nor<4, 1, 64, 128>;
    let n = pick(max, "length") as usize;
    let mut raw: Vec<u8> = (0..n).map(|_| any_u8("byte")).collect();
    if n > 0 {
        // the header decides the kind: let the solver consider each kind by itself
        let h = pick(5, "header");
        if h < 4 {
            raw[0] = h as u8;
        } else {
            assume(raw[0] > 3);
        }
    }
    let mem = leak_mut([0xff; 128]);
    let mut q = QueueStorage::<F, NoCache>::new(Nor::on(mem), QueueConfig::new(0..128), NoCache::new());
    let go = async {
        if q.push(&raw, false).await.is_err() {
            check(false, "harness: push");
        }
        let (nor, _) = q.destroy();
        let mut f = Flash::new(nor, 0..128, NoCache::new());
        let mut buf = [0u8; 48];
        let Ok(mut it) = f.iter_elems().await else {
            return check(false, "iterating succeeds");
        };
        let Ok(Some(nd)) = it.next(&mut buf).await else {
            return check(false, "an item that is no element is yielded");
        };
        let le = |b: &[u8]| b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24;
        let want = if n == 5 && raw[0] == 0 && le(&raw[1..]) != 0 {
            reach("start");
            Some(El::S(le(&raw[1..])))
        } else if n == 9 && raw[0] == 2 && le(&raw[1..]) != 0 {
            reach("end");
            Some(El::E(le(&raw[1..]), le(&raw[5..])))
        } else if n >= 2 && raw[0] == 1 {
            reach("data");
            Some(El::D(raw.clone()))
        } else {
            reach("undecodable");
            None
        };
        match want {
            Some(e) => check(same_el(&e, nd.data()), "a well-formed element is yielded as it is"),
            None => check(nd.data().is_none(), "anything else is undecodable"),
        }
        check(nd.len() == 8 + n.next_multiple_of(4), "the size counts header and padding");
        check(nd.invalidate().await.is_ok(), "it can be invalidated");
        check(matches!(it.next(&mut buf).await, Ok(None)), "it is the only one");
        drop(it);
        holds_exactly(&mut f, &[], "it is gone for good").await;
    };
    if poll1(go).is_none() {
        check(false, "no operation waits forever");
    }
}
pub fn c12_decode() {
    decode(12)
}

/// Elements and things that are none, any of which are invalidated.
fn mixed<const W: usize, const R: usize, const E: usize, const N: usize>(n: usize) {
    let mem = leak_mut([0xff; N]);
    let mut q = QueueStorage::<Nor<W, R, E, N>, NoCache>::new(Nor::on(mem), QueueConfig::new(0..N as u32), NoCache::new());
    let mut els: Vec<(El, usize)> = vec![];
    let go = async {
        for i in 0..n {
            let v = any_u8("byte");
            let (raw, e) = match pick(7, "item") {
                0 => (vec![0, 5 + i as u8, 1, 0, 0], El::S(0x105 + i as u32)),
                1 => (vec![1, i as u8, v, 3], El::D(vec![1, i as u8, v, 3])),
                2 => (vec![2, 5 + i as u8, 0, 0, 0, v, 0, 0, 0], El::E(5 + i as u32, v as u32)),
                3 => (vec![0, 0, 0, 0, 0], El::J(vec![])),
                4 => (vec![2, v, 0, 0], El::J(vec![])),
                5 => (vec![1], El::J(vec![])),
                _ => (vec![3, v, v, v, v, v, v, v, v], El::J(vec![])),
            };
            if let El::J(_) = e {
                reach("undecodable");
            }
            if q.push(&raw, false).await.is_err() {
                check(false, "harness: push");
            }
            let w = W.max(R);
            els.push((e, 8usize.next_multiple_of(w) + raw.len().next_multiple_of(w)));
        }
        let (nor, _) = q.destroy();
        let mut f = Flash::new(nor, 0..N as u32, NoCache::new());
        holds_exactly(&mut f, &els, "everything is yielded in order").await;
        let mut kept = vec![];
        {
            let mut buf = vec![0u8; E];
            let Ok(mut it) = f.iter_elems().await else {
                return check(false, "iterating succeeds");
            };
            for e in els.iter() {
                match it.next(&mut buf).await {
                    Ok(Some(n)) => {
                        check(same_el(&e.0, n.data()), "everything is yielded in order");
                        if flip("invalidate") {
                            check(n.invalidate().await.is_ok(), "invalidating succeeds");
                            if let El::J(_) = e.0 {
                                reach("invalidated undecodable");
                            }
                        } else {
                            kept.push(e.clone());
                        }
                    }
                    _ => check(false, "everything is yielded in order"),
                }
            }
            check(matches!(it.next(&mut buf).await, Ok(None)), "everything is yielded in order");
        }
        holds_exactly(&mut f, &kept, "exactly the invalidated elements are gone").await;
        let e = data_el(3);
        if let Ok(s) = push(&mut f, &e).await {
            kept.push((e, s));
        }
        holds_exactly(&mut f, &kept, "an element is stored after the others").await;
    };
    if poll1(go).is_none() {
        check(false, "no operation waits forever");
    }
    reach("end");
}
pub fn c12_mixed() {
    mixed::<4, 1, 64, 192>(3)
}
pub fn c12_mixed_w1() {
    mixed::<1, 4, 64, 192>(2)
}

/// The largest element the backend advertises.
fn largest<const W: usize, const R: usize, const E: usize, const N: usize>() {
    type F<const W: usize, const R: usize, const E: usize, const N: usize> = Flash<Nor<W, R, E, N>, NoCache>;
    let mut f: F<W, R, E, N> = Flash::new(Nor::new(), 0..N as u32, NoCache::new());
    let max = <F<W, R, E, N>>::MAX_ELEM_SIZE;
    let go = async {
        // behind another element or on a fresh page
        let mut els = vec![];
        if flip("other first") {
            let e = some_el(1);
            let s = push(&mut f, &e).await;
            check(s.is_ok(), "what fits is stored");
            els.push((e, s.unwrap_or(0)));
        }
        let e = data_el(max - pick(3, "below") as usize);
        match push(&mut f, &e).await {
            Ok(s) => els.push((e, s)),
            Err(_) => check(false, "an element of the largest size can be pushed"),
        }
        holds_exactly(&mut f, &els, "the largest element is read back").await;
        let big = El::D(vec![1u8; E - 8]);
        if max < E - 8 {
            check(push(&mut f, &big).await.is_err(), "an element that cannot fit a page is refused");
        }
        holds_exactly(&mut f, &els, "the largest element is read back").await;
    };
    if poll1(go).is_none() {
        check(false, "no operation waits forever");
    }
    reach("end");
}
pub fn c12_largest() {
    match pick(6, "geometry") {
        0 => largest::<1, 1, 64, 192>(),
        1 => largest::<4, 1, 64, 192>(),
        2 => largest::<1, 4, 64, 192>(),
        3 => largest::<16, 1, 128, 384>(),
        4 => largest::<32, 4, 256, 768>(),
        _ => largest::<2, 8, 64, 192>(),
    }
}
pub fn c12_range() {
    // a range that is not made of pages is refused
    let (a, b) = (any_u32("start"), any_u32("end"));
    assume(a <= b && b <= 512);
    let f = Flash::try_new(Nor::<4, 1, 64, 512>::new(), a..b, NoCache::new());
    check(f.is_some() == (a % 64 == 0 && b % 64 == 0 && b - a >= 64), "the range is made of whole pages");
    reach("end");
}
/// Only the given pages of the flash are used, all of them.
pub fn c12_subrange() {
    type F = Flash<Nor<4, 1, 64, 320>, NoCache>;
    let first = pick(3, "first page") as usize * 64;
    let (lo, hi) = (fix(first as u64) as usize, 256);
    let mem: &'static mut [u8; 320] = leak_mut([0u8; 320]);
    let other = any_u8("other data");
    for i in 0..320 {
        mem[i] = if lo <= i && i < hi { 0xff } else { other };
    }
    let mut nor = Nor::<4, 1, 64, 320>::on(mem);
    nor.own = (lo, hi);
    let checked = flip("try_new");
    let (r, c) = (lo as u32..hi as u32, NoCache::new());
    let mut f: F = if checked { Flash::try_new(nor, r, c).unwrap() } else { Flash::new(nor, r, c) };
    let go = async {
        let mut els: Vec<(El, usize)> = vec![];
        // one element per page
        for _ in 0..(hi - lo) / 64 {
            let e = data_el(29);
            match push(&mut f, &e).await {
                Ok(s) => els.push((e, s)),
                Err(_) => check(false, "every page is used"),
            }
        }
        holds_exactly(&mut f, &els, "what was pushed is read back").await;
        check(push(&mut f, &data_el(29)).await.is_err(), "a full storage takes nothing more");
        {
            let mut buf = [0u8; F::MAX_ELEM_SIZE];
            let Ok(mut it) = f.iter_elems().await else {
                return check(false, "iterating succeeds");
            };
            if let Ok(Some(n)) = it.next(&mut buf).await {
                check(n.invalidate().await.is_ok(), "invalidating succeeds");
            }
            els.remove(0);
        }
        let e = data_el(29);
        match push(&mut f, &e).await {
            Ok(s) => els.push((e, s)),
            Err(_) => check(false, "there is room again"),
        }
        holds_exactly(&mut f, &els, "what was pushed is read back").await;
        let m = &f.flash().mem;
        let mut d = 0;
        for i in 0..320 {
            if i < lo || i >= hi {
                d |= m[i] ^ other;
            }
        }
        check(d == 0, "nothing outside the given range changes");
    };
    if poll1(go).is_none() {
        check(false, "no operation waits forever");
    }
    reach("end");
}
/// The storage is full: nothing is lost, and invalidating makes room.
pub fn c12_full() {
    type F = Flash<Nor<4, 4, 64, 128>, NoCache>;
    let mut f: F = Flash::new(Nor::new(), 0..128, NoCache::new());
    let go = async {
        let mut els: Vec<(El, usize)> = vec![];
        for _ in 0..8 {
            let e = data_el(9 + 4 * pick(2, "data length") as usize);
            match push(&mut f, &e).await {
                Ok(s) => els.push((e, s)),
                Err(_) => {
                    reach("full");
                    break;
                }
            }
        }
        holds_exactly(&mut f, &els, "a full storage still holds everything").await;
        // make room
        {
            let mut buf = [0u8; F::MAX_ELEM_SIZE];
            let Ok(mut it) = f.iter_elems().await else {
                return check(false, "iterating succeeds");
            };
            let k = els.len();
            for _ in 0..k {
                if let Ok(Some(n)) = it.next(&mut buf).await {
                    check(n.invalidate().await.is_ok(), "invalidating succeeds");
                }
            }
            els.clear();
        }
        holds_exactly(&mut f, &els, "exactly the invalidated elements are gone").await;
        for _ in 0..2 {
            let e = data_el(9);
            match push(&mut f, &e).await {
                Ok(s) => els.push((e, s)),
                Err(_) => check(false, "there is room again"),
            }
        }
        holds_exactly(&mut f, &els, "what was pushed is read back").await;
    };
    if poll1(go).is_none() {
        check(false, "no operation waits forever");
    }
    reach("end");
}

/// What a push or an invalidation that failed or was cut short leaves behind.
fn cut<const W: usize, const R: usize, const E: usize, const N: usize>(n: usize, mask: u32, reboot: bool) {
    let mem: &'static mut [u8; N] = leak_mut([0xff; N]);
    let ptr: *mut [u8; N] = mem;
    let mut f = Flash::new(Nor::<W, R, E, N>::on(unsafe { &mut *ptr }), 0..N as u32, NoCache::new());
    let mut els: Vec<El> = vec![];
    let mut ok = true;
    for _ in 0..n {
        let e = tagged(els.len(), 3 + 7 * pick(2, "data length") as usize);
        ok &= matches!(poll1(push(&mut f, &e)), Some(Ok(_)));
        els.push(e);
    }
    check(ok, "what fits is stored");
    // one operation with a fault in it
    f.flash().mask = mask;
    f.flash().budget = 1;
    let mut unsure: Option<usize> = None; // index of an element that may or may not be there
    if flip("push") {
        let e = tagged(els.len(), 5);
        let r = poll1(push(&mut f, &e));
        match r {
            Some(Ok(_)) => {
                els.push(e);
                reach("pushed");
            }
            _ => {
                els.push(e);
                unsure = Some(els.len() - 1);
                reach("push cut short");
            }
        }
    } else {
        let k = pick(n as u32, "which") as usize;
        let mut seen = 0;
        let r = poll1(async {
            let mut buf = vec![0u8; E];
            let Ok(mut it) = f.iter_elems().await else {
                return false;
            };
            loop {
                match it.next(&mut buf).await {
                    Ok(Some(x)) => {
                        seen += 1;
                        if seen == k + 1 {
                            return x.invalidate().await.is_ok();
                        }
                    }
                    _ => return false,
                }
            }
        });
        if r == Some(true) {
            els.remove(k);
            reach("invalidated");
        } else if seen == k + 1 {
            unsure = Some(k);
            reach("invalidation cut short");
        } else {
            reach("iteration cut short");
        }
    }
    f.flash().mask = 0;
    f.flash().budget = 0;
    if reboot {
        f = Flash::new(Nor::<W, R, E, N>::on(unsafe { &mut *ptr }), 0..N as u32, NoCache::new());
    }
    for round in 0..2 {
        let r = poll1(async {
            let mut buf = vec![0u8; E];
            let Ok(mut it) = f.iter_elems().await else {
                return check(false, "iterating succeeds after an interruption");
            };
            let mut i = 0;
            loop {
                match it.next(&mut buf).await {
                    Ok(Some(x)) => {
                        // a missing element can only be the one the interruption hit
                        if unsure == Some(i) && (i >= els.len() || !same_el(&els[i], x.data())) {
                            i += 1;
                        }
                        check(i < els.len(), "nothing appears that was not pushed");
                        if i < els.len() {
                            check(same_el(&els[i], x.data()), "an interruption changes no other element");
                        }
                        i += 1;
                    }
                    Ok(None) => break,
                    Err(_) => check(false, "iterating succeeds after an interruption"),
                }
            }
            if unsure == Some(i) {
                i += 1;
            }
            check(i == els.len(), "an interruption loses no other element");
        });
        check(r.is_some(), "no operation waits forever");
        if round == 0 {
            // and storing goes on
            let e = tagged(els.len(), 3);
            match poll1(push(&mut f, &e)) {
                Some(Ok(_)) => els.push(e),
                _ => break,
            }
            reach("went on");
        }
    }
    reach("end");
}
pub fn c12_power() {
    cut::<4, 4, 64, 192>(2, N_WRITE_HANG | N_ERASE_HANG, true)
}
pub fn c12_power_wrap() {
    cut::<4, 4, 64, 192>(4, N_WRITE_HANG | N_ERASE_HANG, true)
}
pub fn c12_power_w1() {
    cut::<1, 1, 64, 192>(2, N_WRITE_HANG | N_ERASE_HANG, true)
}
pub fn c12_errors() {
    cut::<4, 4, 64, 192>(3, N_WRITE_ERR | N_ERASE_ERR | N_READ_ERR, false)
}
pub fn c12_cancel() {
    cut::<8, 8, 64, 192>(2, N_WRITE_HANG | N_ERASE_HANG | N_READ_HANG, false)
}

/// Values around the largest size on the real backend (C14).
pub fn c14_flash() {
    type F = Flash<Nor<4, 1, 64, 256>, NoCache>;
    const KEY: &str = "0123456789abcdefghij"; // 21 bytes encoded
    let mem: &'static mut [u8; 256] = leak_mut([0xff; 256]);
    let ptr: *mut [u8; 256] = mem;
    let mut st: F = Flash::new(Nor::on(unsafe { &mut *ptr }), 0..256, NoCache::new());
    let list = new_list::<1>();
    let (fk, fo) = (start(node::<Blob>(KEY), list), start(node::<V>("o"), list));
    let mut buf = [0u8; 64];
    let len = if flip("larger buffer") { 64 } else { F::MAX_ELEM_SIZE };
    let buf = &mut buf[..len];
    check(matches!(r3(poll1(list.process_reads(&mut st, buf))), R3::Ok), "reading succeeds");
    let (mut hk, mut ho) = (finish(fk), finish(fo));
    let mut x = any_blob(fix(20 + pick(7, "length") as u64) as usize);
    let v = any_v("other");
    set(&mut hk, &x);
    set(&mut ho, &v);
    let fits = F::check_node_size(KEY, &x);
    let r = r3(poll1(list.process_writes(&mut st, buf)));
    check(matches!(r, R3::Ok) == fits, "exactly what the size check accepts is written");
    check(beq(&hk.load(), &x) & veq(&ho.load(), &v), "values in memory are kept");
    if !fits {
        check(matches!(r, R3::Other), "what does not fit is refused");
        reach("refused");
        x = any_blob(3);
        set(&mut hk, &x);
        let _ = poll1(list.process_reads(&mut st, buf));
        check(matches!(r3(poll1(list.process_garbage(&mut st, buf))), R3::Ok), "gc succeeds");
        check(matches!(r3(poll1(list.process_writes(&mut st, buf))), R3::Ok), "a smaller value is written");
    } else {
        reach("fits");
    }
    let mut st: F = Flash::new(Nor::on(unsafe { &mut *ptr }), 0..256, NoCache::new());
    let list = new_list::<1>();
    let (fk, fo) = (start(node::<Blob>(KEY), list), start(node::<V>("o"), list));
    check(matches!(r3(poll1(list.process_reads(&mut st, buf))), R3::Ok), "reading succeeds");
    check(beq(&finish(fk).load(), &x) & veq(&finish(fo).load(), &v), "both values are durable");
    reach("end");
}

// ---------------------------------------------------------------- a list on the flash

type FE = cfg_noodle::sequential_storage::Error<NorErr>;
enum R3 {
    Ok,
    Gc,
    Read,
    Other,
    Hung,
}
fn r3<T>(r: Option<Result<T, LoadStoreError<FE>>>) -> R3 {
    match r {
        None => R3::Hung,
        Some(Ok(_)) => R3::Ok,
        Some(Err(LoadStoreError::AppError(Error::NeedsGarbageCollect))) => R3::Gc,
        Some(Err(LoadStoreError::AppError(Error::NeedsFirstRead))) => R3::Read,
        Some(Err(_)) => R3::Other,
    }
}
/// Boots of a two-node list on a NOR flash, with up to `budget` faults; every boot sees the old
/// or the new values, and a confirmed write stays.
fn stack<const K: usize, const W: usize, const R: usize, const E: usize, const N: usize>(
    mask: u32,
    budget: u32,
    boots: usize,
    preload: usize,
) {
    let mem: &'static mut [u8; N] = leak_mut([0xff; N]);
    let ptr: *mut [u8; N] = mem;
    let mut cur = (V::default(), V::default());
    let mut maybe: Option<(V, V)> = None;
    let mut faults = (0u32, 0u32);
    for i in 0..preload + boots + 1 {
        if i == preload {
            faults = (mask, budget);
        }
        if i == preload + boots {
            faults = (0, 0);
        }
        let mut nor = Nor::<W, R, E, N>::on(unsafe { &mut *ptr });
        (nor.mask, nor.budget) = faults;
        let mut st = Flash::new(nor, 0..N as u32, NoCache::new());
        let list = new_list::<K>();
        let (fa, fb) = (start(node::<V>("a"), list), start(node::<V>("b"), list));
        let mut buf = [0u8; MAXB];
        if !matches!(r3(poll1(list.process_reads(&mut st, &mut buf))), R3::Ok) {
            check(st.flash().fired, "reading fails only when the flash fails");
            faults.1 = st.flash().budget;
            continue;
        }
        let (mut a, mut b) = (finish(fa), finish(fb));
        let got = (a.load(), b.load());
        let is_cur = veq(&got.0, &cur.0) & veq(&got.1, &cur.1);
        match maybe {
            None => check(is_cur, "a boot sees the last confirmed set"),
            Some(m) => {
                let is_new = veq(&got.0, &m.0) & veq(&got.1, &m.1);
                check(is_cur | is_new, "a boot sees the old or the new set, never a mixture");
                reach("after an interrupted write");
            }
        }
        if i == preload + boots {
            break;
        }
        cur = got;
        maybe = None;
        // earlier rounds are concrete
        let k = 7 * i as u8;
        let new = if i + 1 < preload {
            (V([k, 1]), V([k, 2]))
        } else {
            (V([any_u8("a"), k]), V([k, any_u8("b")]))
        };
        set(&mut a, &new.0);
        set(&mut b, &new.1);
        for _ in 0..3 {
            let w0 = st.flash().writes;
            let r = r3(poll1(list.process_writes(&mut st, &mut buf)));
            if st.flash().writes != w0 {
                maybe = Some(new);
            }
            match r {
                R3::Ok => {
                    cur = new;
                    maybe = None;
                    reach("write confirmed");
                    break;
                }
                R3::Gc => {
                    if let R3::Hung = r3(poll1(list.process_garbage(&mut st, &mut buf))) {
                        break;
                    }
                }
                R3::Hung => break,
                R3::Read | R3::Other => check(st.flash().fired, "writing fails only when the flash fails"),
            }
        }
        faults.1 = st.flash().budget;
        if flip("collect") && faults.1 > 0 {
            let _ = poll1(list.process_garbage(&mut st, &mut buf));
            faults.1 = st.flash().budget;
        }
    }
    reach("end");
}
pub fn c12_stack() {
    stack::<1, 4, 4, 128, 384>(N_WRITE_HANG | N_ERASE_HANG, 1, 1, 1)
}
pub fn c12_stack_wrap() {
    stack::<2, 8, 1, 128, 512>(N_WRITE_HANG | N_ERASE_HANG, 1, 1, 4)
}
pub fn c12_stack_errors() {
    stack::<1, 4, 4, 128, 384>(N_WRITE_ERR | N_ERASE_ERR | N_READ_ERR, 1, 1, 2)
}
pub fn c12_stack_deep() {
    stack::<1, 1, 1, 64, 256>(N_WRITE_HANG | N_ERASE_HANG | N_WRITE_ERR | N_ERASE_ERR, 2, 2, 1)
}
