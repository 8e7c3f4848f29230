//! The interface between the harnesses and the symbolic executor.
//!
//! Under the executor (`cargo rustc --emit=llvm-ir`), the `sym_*` functions are external and the
//! executor gives them their meaning. With the `replay` feature the same harnesses are compiled
//! natively and the functions below read the values the solver chose from a file.
#![allow(dead_code)]

#[cfg(not(feature = "replay"))]
unsafe extern "C" {
    fn sym_new(width: u32, label: *const u8, len: usize) -> u64;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, label: *const u8, len: usize);
    fn sym_pick(n: u32, label: *const u8, len: usize) -> u32;
    fn sym_reach(label: *const u8, len: usize);
    fn sym_log(v: u64, label: *const u8, len: usize);
    fn sym_fix(v: u64) -> u64;
}

#[cfg(feature = "replay")]
pub mod replay {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct R {
        pub vals: Vec<u64>,
        pub pos: usize,
        pub fails: Vec<String>,
        pub log: Vec<(String, u64)>,
        pub reach: Vec<String>,
    }
    thread_local! { pub static ST: RefCell<R> = RefCell::new(R::default()); }
    pub struct AssumeFailed;
    pub struct AssertFailed;
    fn s(p: *const u8, n: usize) -> String {
        String::from_utf8_lossy(unsafe { core::slice::from_raw_parts(p, n) }).into_owned()
    }
    pub unsafe fn sym_new(width: u32, _p: *const u8, _n: usize) -> u64 {
        ST.with(|r| {
            let mut r = r.borrow_mut();
            let v = r.vals.get(r.pos).copied().unwrap_or(0);
            r.pos += 1;
            if width >= 64 { v } else { v & ((1u64 << width) - 1) }
        })
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumeFailed);
        }
    }
    pub unsafe fn sym_assert(c: bool, p: *const u8, n: usize) {
        if !c {
            ST.with(|r| r.borrow_mut().fails.push(s(p, n)));
            std::panic::panic_any(AssertFailed);
        }
    }
    pub unsafe fn sym_pick(n: u32, p: *const u8, l: usize) -> u32 {
        let v = unsafe { sym_new(32, p, l) } as u32;
        unsafe { sym_assume(v < n) };
        v
    }
    pub unsafe fn sym_reach(p: *const u8, n: usize) {
        ST.with(|r| r.borrow_mut().reach.push(s(p, n)));
    }
    pub unsafe fn sym_log(v: u64, p: *const u8, n: usize) {
        ST.with(|r| r.borrow_mut().log.push((s(p, n), v)));
    }
    pub unsafe fn sym_fix(v: u64) -> u64 {
        v
    }
}
#[cfg(feature = "replay")]
use replay::*;

pub fn any_u8(l: &'static str) -> u8 {
    unsafe { sym_new(8, l.as_ptr(), l.len()) as u8 }
}
pub fn any_u16(l: &'static str) -> u16 {
    unsafe { sym_new(16, l.as_ptr(), l.len()) as u16 }
}
pub fn any_u32(l: &'static str) -> u32 {
    unsafe { sym_new(32, l.as_ptr(), l.len()) as u32 }
}
pub fn any_u64(l: &'static str) -> u64 {
    unsafe { sym_new(64, l.as_ptr(), l.len()) }
}
/// A symbolic boolean, decided (forked on) where it is used.
pub fn any_bool(l: &'static str) -> bool {
    unsafe { sym_new(1, l.as_ptr(), l.len()) & 1 == 1 }
}
/// One of `0..n`, each explored as its own path.
pub fn pick(n: u32, l: &'static str) -> u32 {
    if n <= 1 {
        return 0;
    }
    unsafe { sym_pick(n, l.as_ptr(), l.len()) }
}
pub fn flip(l: &'static str) -> bool {
    pick(2, l) == 1
}
pub fn any_bytes<const N: usize>(l: &'static str) -> [u8; N] {
    let mut b = [0u8; N];
    for x in b.iter_mut() {
        *x = any_u8(l);
    }
    b
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// The property assertion `id`.
pub fn check(c: bool, id: &'static str) {
    unsafe { sym_assert(c, id.as_ptr(), id.len()) }
}
/// Reachability witness: the driver requires every declared label to be reached.
pub fn reach(id: &'static str) {
    unsafe { sym_reach(id.as_ptr(), id.len()) }
}
/// Observable value, compared between the executor and the native run of sampled paths.
pub fn log(id: &'static str, v: u64) {
    unsafe { sym_log(v, id.as_ptr(), id.len()) }
}
/// Make a value concrete (forks over its feasible values).
pub fn fix(v: u64) -> u64 {
    unsafe { sym_fix(v) }
}
