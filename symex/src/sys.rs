//! The few libc calls used to explore in parallel processes.
use std::sync::atomic::AtomicU64;
extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn _exit(c: i32) -> !;
}
pub const N: usize = 16;
pub fn shared() -> &'static [AtomicU64; N] {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const [AtomicU64; N])
    }
}
// slots
pub const STOP: usize = 0;
pub const TOKENS: usize = 1;
pub const PATHS: usize = 2;
pub const PARTS: usize = 3;
