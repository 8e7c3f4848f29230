//! Splitting and encoding of data elements, and the checksum, against hand-written references.
use super::kit::*;

/// `n` symbolic bytes in an allocation of exactly `n` bytes.
fn heap(n: usize, l: &'static str) -> Box<[u8]> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(any_u8(l));
    }
    v.into_boxed_slice()
}

// ---------------------------------------------------------------- references

/// RFC 3629, written out.
fn is_utf8(b: &[u8]) -> bool {
    let cont = |i: usize, lo: u8, hi: u8| i < b.len() && b[i] >= lo && b[i] <= hi;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c < 0x80 {
            i += 1;
        } else if c >= 0xc2 && c <= 0xdf {
            if !cont(i + 1, 0x80, 0xbf) {
                return false;
            }
            i += 2;
        } else if c >= 0xe0 && c <= 0xef {
            let lo = if c == 0xe0 { 0xa0 } else { 0x80 };
            let hi = if c == 0xed { 0x9f } else { 0xbf };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) {
                return false;
            }
            i += 3;
        } else if c >= 0xf0 && c <= 0xf4 {
            let lo = if c == 0xf0 { 0x90 } else { 0x80 };
            let hi = if c == 0xf4 { 0x8f } else { 0xbf };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) || !cont(i + 3, 0x80, 0xbf) {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}
/// RFC 8949 text string of definite length at the start of `b`: where its bytes start and end.
fn text(b: &[u8]) -> Option<(usize, usize)> {
    let h = *b.first()?;
    if h >> 5 != 3 {
        return None;
    }
    let (w, n) = match h & 31 {
        n @ 0..=23 => (0usize, n as u64),
        24 => (1, 0),
        25 => (2, 0),
        26 => (4, 0),
        27 => (8, 0),
        _ => return None,
    };
    if b.len() < 1 + w {
        return None;
    }
    let mut len = n;
    for i in 0..w {
        len = len << 8 | b[1 + i] as u64;
    }
    if len > (b.len() - 1 - w) as u64 {
        return None;
    }
    let len = fix(len) as usize;
    if !is_utf8(&b[1 + w..1 + w + len]) {
        return None;
    }
    Some((1 + w, 1 + w + len))
}
/// CRC-32/CKSUM without the length: polynomial 0x04c11db7, not reflected, inverted at the end.
fn crc_ref(b: &[u8]) -> u32 {
    let mut c = 0u32;
    for x in b {
        for k in (0..8).rev() {
            let top = (c >> 31) as u8 ^ (x >> k & 1);
            c = c << 1 ^ (0x04c1_1db7 & (top as u32).wrapping_neg());
        }
    }
    !c
}
fn text_hdr(n: usize) -> Vec<u8> {
    match n {
        0..=23 => vec![0x60 + n as u8],
        24..=255 => vec![0x78, n as u8],
        _ => vec![0x79, (n >> 8) as u8, n as u8],
    }
}
fn diff(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return true;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d != 0
}
fn is_part_of(part: &[u8], whole: &[u8], at: usize) -> bool {
    core::ptr::eq(part.as_ptr(), whole[at..].as_ptr())
}

// ---------------------------------------------------------------- C13

/// All elements of `n` arbitrary bytes.
fn split(n: usize) {
    let b = heap(n, "byte");
    let d = SerData::from_existing(&b);
    check(d.is_some() == (n > 0), "only an empty slice is no element");
    let Some(d) = d else {
        return reach("empty");
    };
    check(d.hdr() == b[0], "the header is the first byte");
    check(d.key_val().len() == n - 1 && is_part_of(d.key_val(), &b, 1), "key and value follow the header");
    match (d.kv_pair(), text(&b[1..])) {
        (Ok(kv), Some((s, e))) => {
            check(
                kv.key.len() == e - s && is_part_of(kv.key.as_bytes(), &b, 1 + s),
                "the key is the text",
            );
            check(
                kv.body.len() == n - 1 - e && is_part_of(kv.body, &b, 1 + e),
                "the value is what follows the key",
            );
            reach("split");
        }
        (Err(e), None) => {
            check(e == Error::Deserialization, "no key text is a deserialization error");
            reach("no key");
        }
        (Ok(_), None) => check(false, "something that is no text is not split"),
        (Err(_), Some(_)) => check(false, "every key text is found"),
    }
}
pub fn c13_split() {
    split(pick(7, "length") as usize)
}
pub fn c13_split_long() {
    split(7 + pick(2, "length") as usize)
}
pub fn c13_split_9() {
    split(9 + pick(2, "length") as usize)
}
/// Wide length headers: the first bytes of the key arbitrary, few bytes left.
pub fn c13_split_wide() {
    let n = 2 + pick(13, "length") as usize;
    let mut b = heap(n, "byte");
    b[1] = 0x78 + pick(4, "width") as u8;
    // at most 3 bytes of text, all symbolic
    let d = SerData::from_existing(&b).unwrap();
    match (d.kv_pair(), text(&b[1..])) {
        (Ok(kv), Some((s, e))) => {
            check(
                kv.key.len() == e - s && is_part_of(kv.key.as_bytes(), &b, 1 + s),
                "the key is the text",
            );
            check(
                kv.body.len() == n - 1 - e && is_part_of(kv.body, &b, 1 + e),
                "the value is what follows the key",
            );
            reach("split");
        }
        (Err(_), None) => reach("no key"),
        (Ok(_), None) => check(false, "something that is no text is not split"),
        (Err(_), Some(_)) => check(false, "every key text is found"),
    }
}
/// Preparing an element writes the header and nothing else.
pub fn c13_new() {
    let n = pick(6, "length") as usize;
    let mut b = heap(n, "byte");
    let before = b.clone();
    let r = SerData::new(&mut b).map(|d| (d.hdr(), d.key_val().len()));
    match r {
        None => check(n == 0, "only an empty slice is no element"),
        Some((h, l)) => {
            check(h == 1 && b[0] == 1, "the header is the one of data");
            check(l == n - 1 && !diff(&b[1..], &before[1..]), "key and value are left alone");
            reach("end");
        }
    }
}
/// The checksum is the CRC-32, however the bytes are fed to it.
pub fn c13_crc() {
    let n = pick(13, "length") as usize;
    let b = heap(n, "byte");
    let mut c = if flip("default") { Crc32::default() } else { Crc32::new() };
    let (i, j) = (pick(n as u32 + 1, "cut") as usize, pick(n as u32 + 1, "cut") as usize);
    if i > j {
        return;
    }
    c.update(&b[..i]);
    c.update(&b[i..j]);
    c.update(&b[j..]);
    check(c.finalize() == crc_ref(&b), "the checksum is the CRC-32/CKSUM of the bytes");
    reach("end");
}

pub fn c13_crc_long() {
    let b = heap(40, "byte");
    let mut c = Crc32::new();
    let i = pick(41, "cut") as usize;
    c.update(&b[..i]);
    c.update(&b[i..]);
    check(c.finalize() == crc_ref(&b), "the checksum is the CRC-32/CKSUM of the bytes");
    reach("end");
}

/// Records what is pushed, any size.
pub struct Log {
    e: Vec<(u8, u32, u32, Vec<u8>)>,
}
pub struct LogIt<'a>(&'a mut Log, usize);
pub struct LogNd<'a, 'b>(&'a mut LogIt<'b>, usize);
impl NdlDataStorage for Log {
    type Iter<'t>
        = LogIt<'t>
    where
        Self: 't;
    type Error = IoErr;
    async fn iter_elems<'t>(&'t mut self) -> Result<LogIt<'t>, IoErr> {
        Ok(LogIt(self, 0))
    }
    async fn push(&mut self, d: &Elem<'_>) -> Result<usize, IoErr> {
        self.e.push(match d {
            Elem::Start { seq_no } => (0, seq_no.get(), 0, vec![]),
            Elem::Data { data } => {
                let mut v = vec![data.hdr()];
                v.extend_from_slice(data.key_val());
                (1, 0, 0, v)
            }
            Elem::End { seq_no, calc_crc } => (2, seq_no.get(), *calc_crc, vec![]),
        });
        Ok(1)
    }
    const MAX_ELEM_SIZE: usize = 400;
}
impl<'a> NdlElemIter for LogIt<'a> {
    type Item<'t, 'b>
        = LogNd<'t, 'a>
    where
        Self: 't,
        Self: 'b;
    type Error = IoErr;
    async fn next<'i, 'b>(&'i mut self, buf: &'b mut [u8]) -> Result<Option<LogNd<'i, 'a>>, IoErr>
    where
        Self: 'b,
        Self: 'i,
    {
        if self.1 < self.0.e.len() {
            self.1 += 1;
            let i = self.1 - 1;
            if self.0.e[i].3.len() > buf.len() {
                return Err(IoErr(4));
            }
            Ok(Some(LogNd(self, i)))
        } else {
            Ok(None)
        }
    }
}
impl NdlElemIterNode for LogNd<'_, '_> {
    type Error = IoErr;
    fn data(&self) -> Option<Elem<'_>> {
        let e = &self.0.0.e[self.1];
        match e.0 {
            0 => Some(Elem::Start { seq_no: NonZeroU32::new(e.1)? }),
            1 => Some(Elem::Data { data: SerData::from_existing(&e.3)? }),
            _ => Some(Elem::End { seq_no: NonZeroU32::new(e.1)?, calc_crc: e.2 }),
        }
    }
    fn len(&self) -> usize {
        1
    }
    async fn invalidate(self) -> Result<(), IoErr> {
        let (it, i) = (self.0, self.1);
        it.0.e.remove(i);
        it.1 -= 1;
        Ok(())
    }
}

/// Write `v` under `key` (next to a second node), look at the element, load it again.
fn encode<T: Val>(key: &'static str, v: &T, body: &[u8]) {
    let mut st = Log { e: vec![] };
    let mut buf = vec![0u8; 400];
    let l = new_list::<1>();
    let (f, g) = (start(node::<T>(key), l), start(node::<V>("~other"), l));
    check(matches!(poll1(l.process_reads(&mut st, &mut buf)), Some(Ok(_))), "reads");
    let (mut h, mut o) = (finish(f), finish(g));
    set(&mut h, v);
    let w = any_v("other");
    set(&mut o, &w);
    check(matches!(poll1(l.process_writes(&mut st, &mut buf)), Some(Ok(_))), "what fits is written");

    let mut want = vec![1u8];
    want.extend_from_slice(&text_hdr(key.len()));
    want.extend_from_slice(key.as_bytes());
    let at = want.len();
    want.extend_from_slice(body);
    let (mut found, mut all) = (0, vec![]);
    for e in st.e.iter() {
        if e.0 == 1 {
            all.extend_from_slice(&e.3[1..]);
            if e.3.len() == want.len() && !diff(&e.3, &want) {
                found += 1;
                let d = SerData::from_existing(&e.3).unwrap();
                match d.kv_pair() {
                    Ok(kv) => {
                        check(!diff(kv.key.as_bytes(), key.as_bytes()), "what is encoded splits into the key");
                        check(
                            kv.body.len() == body.len() && is_part_of(kv.body, &e.3, at),
                            "what is encoded splits into the value",
                        );
                    }
                    Err(_) => check(false, "what is encoded can be split"),
                }
            }
        }
    }
    check(found == 1, "the element is header, key and value");
    let n = st.e.len();
    check(
        n == 4 && st.e[0].0 == 0 && st.e[3].0 == 2 && st.e[3].2 == crc_ref(&all),
        "the end carries the CRC-32 of the data elements",
    );

    let l = new_list::<1>();
    let f = start(node::<T>(key), l);
    check(matches!(poll1(l.process_reads(&mut st, &mut buf)), Some(Ok(_))), "reads");
    let h = finish(f);
    check(h.load() == *v, "the value is loaded again");
    reach("end");
}
fn any_key(n: usize, sym: &[usize]) -> &'static str {
    let mut k: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    for i in sym {
        if *i < n {
            k[*i] = any_u8("key");
            assume(k[*i] < 0x80);
        }
    }
    leak(String::from_utf8(k).unwrap())
}
/// Keys of every header width.
pub fn c13_keys() {
    let n = [0usize, 1, 2, 5, 22, 23, 24, 25, 255, 256, 300][pick(11, "key length") as usize];
    let key = any_key(n, &[0, 1, 2]);
    let v = any_v("value");
    encode(key, &v, &[0x42, v.0[0], v.0[1]]);
}
/// Two keys that differ in one place only, or of which one continues the other: each node gets
/// what is stored under its own key, whether the other one is attached or not.
fn c13_similar_on(n: usize) {
    let at = if n <= 40 {
        pick(n as u32 + 1, "difference") as usize
    } else {
        [0, 1, 15, 16, 23, 24, 31, 32, 63, n / 2, n - 2, n - 1, n][pick(13, "difference") as usize]
    };
    let k1 = vec![b'x'; n];
    let mut k2 = k1.clone();
    if at < n {
        k2[at] = any_u8("other byte");
        assume(k2[at] < 0x80 && k2[at] != b'x');
    } else {
        k2.push(b'x');
    }
    let (k1, k2): (&'static str, &'static str) =
        (leak(String::from_utf8(k1).unwrap()), leak(String::from_utf8(k2).unwrap()));
    let keys = [k1, k2];
    let mut st = Log { e: vec![] };
    let mut buf = vec![0u8; 400];
    let vals = [any_v("first"), any_v("second")];
    let stored = 1 + pick(3, "stored");
    let asked = 1 + pick(3, "asked for");
    for boot in 0..2 {
        let l = new_list::<1>();
        let mut f = [None, None];
        let mask = if boot == 0 { stored } else { asked };
        for i in 0..2 {
            if mask >> i & 1 != 0 {
                let mut x = begin(node::<V>(keys[i]), l);
                check(poll_att(&mut x).is_none(), "different keys can be attached together");
                f[i] = Some(x);
            }
        }
        check(matches!(poll1(l.process_reads(&mut st, &mut buf)), Some(Ok(_))), "reads");
        for i in 0..2 {
            let Some(x) = f[i].take() else { continue };
            let mut h = finish(x);
            if boot == 0 {
                set(&mut h, &vals[i]);
            } else {
                let want = if stored >> i & 1 != 0 { vals[i] } else { V::default() };
                check(veq(&h.load(), &want), "what is stored under the own key, else the default");
            }
        }
        if boot == 0 {
            check(matches!(poll1(l.process_writes(&mut st, &mut buf)), Some(Ok(_))), "written");
        }
    }
    reach("end");
}
pub fn c13_similar() {
    c13_similar_on([1, 2, 3, 8, 9, 16, 17, 24, 25, 33, 40][pick(11, "key length") as usize])
}
pub fn c13_similar_long() {
    c13_similar_on([64, 65, 129, 255, 256, 257][pick(6, "key length") as usize])
}
/// A value of `N` bytes, as long as an application makes it.
#[derive(Clone, PartialEq)]
struct Wide<const N: usize>([u8; N]);
impl<const N: usize> Default for Wide<N> {
    fn default() -> Self {
        Wide([7; N])
    }
}
impl<const N: usize, C> Encode<C> for Wide<N> {
    fn encode<W: minicbor::encode::Write>(
        &self,
        e: &mut minicbor::Encoder<W>,
        _: &mut C,
    ) -> Result<(), minicbor::encode::Error<W::Error>> {
        e.bytes(&self.0)?.ok()
    }
}
impl<'b, const N: usize, C> Decode<'b, C> for Wide<N> {
    fn decode(d: &mut minicbor::Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        match d.bytes()?.try_into() {
            Ok(b) => Ok(Wide(b)),
            Err(_) => Err(minicbor::decode::Error::message("length")),
        }
    }
}
impl<const N: usize, C> CborLen<C> for Wide<N> {
    fn cbor_len(&self, _: &mut C) -> usize {
        N + bytes_hdr(N).len()
    }
}
fn bytes_hdr(n: usize) -> Vec<u8> {
    let mut h = text_hdr(n);
    h[0] ^= 0x20;
    h
}
fn wide<const N: usize>(key: &'static str) {
    let mut b = [0u8; N];
    for i in 0..N {
        b[i] = i as u8;
    }
    // the last bytes, and the first if there are not too many after it
    for i in 0..4 {
        b[N - 1 - i] = any_u8("value");
    }
    let mut body = bytes_hdr(N);
    body.extend_from_slice(&b);
    encode(key, &Wide(b), &body);
}
/// Values of up to 390 bytes.
pub fn c13_large() {
    let key = ["k", "a/somewhat/longer/key/than/that"][pick(2, "key") as usize];
    match pick(13, "value length") {
        0 => wide::<22>(key),
        1 => wide::<23>(key),
        2 => wide::<24>(key),
        3 => wide::<63>(key),
        4 => wide::<64>(key),
        5 => wide::<127>(key),
        6 => wide::<128>(key),
        7 => wide::<200>(key),
        8 => wide::<250>(key),
        9 => wide::<255>(key),
        10 => wide::<256>(key),
        11 => wide::<300>(key),
        _ => wide::<350>(key),
    }
}
/// Keys that are not ASCII.
pub fn c13_keys_utf8() {
    let key = ["é", "a中", "😀b", "\u{7ff}\u{800}", "\u{ffff}\u{10ffff}", "\0", "\u{7f}\u{80}"][pick(7, "key") as usize];
    let v = any_v("value");
    encode(key, &v, &[0x42, v.0[0], v.0[1]]);
}
fn uint(major: u8, x: u64) -> Vec<u8> {
    let m = major << 5;
    if x < 24 {
        vec![m | x as u8]
    } else if x < 1 << 8 {
        vec![m | 24, x as u8]
    } else if x < 1 << 16 {
        vec![m | 25, (x >> 8) as u8, x as u8]
    } else if x < 1 << 32 {
        vec![m | 26, (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]
    } else {
        let mut v = vec![m | 27];
        for k in (0..8).rev() {
            v.push((x >> (8 * k)) as u8);
        }
        v
    }
}
/// Values of various types, every value.
pub fn c13_values() {
    match pick(10, "type") {
        0 => {
            let x = any_u64("value");
            encode("k", &x, &uint(0, x));
        }
        1 => {
            let x = any_u64("value") as i64;
            encode("k", &x, &if x < 0 { uint(1, !(x as u64)) } else { uint(0, x as u64) });
        }
        2 => {
            let x = any_bool("value");
            encode("k", &x, &[if x { 0xf5 } else { 0xf4 }]);
        }
        3 => {
            let x = any_u16("value");
            encode("k", &Some(x), &uint(0, x as u64));
        }
        4 => encode("k", &None::<u16>, &[0xf6]),
        5 => {
            let b = any_u32("value");
            encode("k", &Fl(b), &[0xfa, (b >> 24) as u8, (b >> 16) as u8, (b >> 8) as u8, b as u8]);
        }
        6 => {
            let (a, b) = (any_u8("value"), any_bool("value"));
            let mut w = vec![0x82];
            w.extend(uint(0, a as u64));
            w.push(if b { 0xf5 } else { 0xf4 });
            encode("k", &P { a, b }, &w);
        }
        7 => encode("k", &(), &[0x80]),
        8 => {
            let x = any_u8("value");
            encode("k", &Aligned(x), &uint(0, x as u64));
        }
        _ => {
            let n = pick(5, "length") as usize;
            let b: Vec<u8> = (0..n).map(|_| any_u8("value")).collect();
            let mut w = vec![0x40 + n as u8];
            w.extend_from_slice(&b);
            encode("k", &Blob(b), &w);
        }
    }
}
/// A value that is larger, and aligned more strictly, than what is stored.
#[derive(Encode, Decode, CborLen, Clone, Default, PartialEq)]
#[cbor(transparent)]
#[repr(align(64))]
struct Aligned(#[n(0)] u8);
/// A float by its bits (so that equality is equality of bits).
#[derive(Clone, Copy, Default, PartialEq, Debug)]
struct Fl(u32);
impl<C> Encode<C> for Fl {
    fn encode<W: minicbor::encode::Write>(
        &self,
        e: &mut minicbor::Encoder<W>,
        _: &mut C,
    ) -> Result<(), minicbor::encode::Error<W::Error>> {
        e.f32(f32::from_bits(self.0))?.ok()
    }
}
impl<'b, C> Decode<'b, C> for Fl {
    fn decode(d: &mut minicbor::Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        Ok(Fl(d.f32()?.to_bits()))
    }
}
impl<C> CborLen<C> for Fl {
    fn cbor_len(&self, _: &mut C) -> usize {
        5
    }
}
#[derive(Clone, Default, PartialEq, Debug)]
struct Blob(Vec<u8>);
impl<C> Encode<C> for Blob {
    fn encode<W: minicbor::encode::Write>(
        &self,
        e: &mut minicbor::Encoder<W>,
        _: &mut C,
    ) -> Result<(), minicbor::encode::Error<W::Error>> {
        e.bytes(&self.0)?.ok()
    }
}
impl<'b, C> Decode<'b, C> for Blob {
    fn decode(d: &mut minicbor::Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        Ok(Blob(d.bytes()?.to_vec()))
    }
}
impl<C> CborLen<C> for Blob {
    fn cbor_len(&self, _: &mut C) -> usize {
        1 + self.0.len()
    }
}

/// A CBOR byte string of two bytes at the start of `b`.
fn two(b: &[u8]) -> Option<V> {
    let h = *b.first()?;
    if h >> 5 != 2 {
        return None;
    }
    let (w, n) = match h & 31 {
        n @ 0..=23 => (0usize, n as u64),
        24 => (1, 0),
        25 => (2, 0),
        26 => (4, 0),
        27 => (8, 0),
        _ => return None,
    };
    if b.len() < 3 + w {
        return None;
    }
    let mut len = n;
    for i in 0..w {
        len = len << 8 | b[1 + i] as u64;
    }
    if len != 2 { None } else { Some(V([b[1 + w], b[2 + w]])) }
}
/// A valid record holding one element of arbitrary bytes: what is loaded follows the reference.
pub fn c13_stored() {
    let n = 1 + pick(8, "length") as usize;
    let mut b = [0u8; 9];
    for x in b[1..n].iter_mut() {
        *x = any_u8("byte");
    }
    b[0] = 1;
    let mut st = Store::<48>::new();
    put_record(&mut st, 1, &[Rec::data(&b[..n]), data_rec("b", &V([8, 9]))]);
    let Some(t) = boot2::<1, 48>(&mut st) else {
        return check(false, "reading succeeds whatever an element holds");
    };
    let mut want = V::default();
    if let Some((s, e)) = text(&b[1..n])
        && e - s == 1
        && b[1 + s] == b'a'
    {
        match two(&b[1 + e..n]) {
            Some(v) => {
                want = v;
                reach("value");
            }
            None => reach("not a value"),
        }
    } else {
        reach("another key");
    }
    check(veq(&t.a.load(), &want), "the value follows the key");
    // an element with the key of another node would shadow it
    if let Some((s, e)) = text(&b[1..n])
        && e - s == 1
        && b[1 + s] == b'b'
    {
        return;
    }
    check(veq(&t.b.load(), &V([8, 9])), "other elements are not affected");
    reach("end");
}
