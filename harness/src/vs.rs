//! Interface between the harnesses and the checker (symbolic executor or native replay runtime).
#![allow(dead_code)]

mod ffi {
    extern "C" {
        pub fn vs_choice(n: u32, tag: *const u8, len: usize) -> u32;
        pub fn vs_sym(p: *mut u8, n: usize, tag: *const u8, len: usize);
        pub fn vs_range(lo: u64, hi: u64, tag: *const u8, len: usize) -> u64;
        pub fn vs_assume(c: bool);
        pub fn vs_assert(c: bool, msg: *const u8, len: usize);
        pub fn vs_cover(id: u32);
        pub fn vs_concretize(v: u64) -> u64;
        pub fn vs_hash_policy(ns: u64, sym: u64, and: u64, or: u64);
        pub fn vs_preempt(budget: u64, flags: u64);
        pub fn vs_crash_begin(recover: extern "C" fn(), flags: u64);
        pub fn vs_crash_end();
        pub fn vs_crash_now(recover: extern "C" fn(), flags: u64);
        pub fn vs_power();
        pub fn vs_stash(slot: u64, p: *const u8, n: usize);
        pub fn vs_unstash(slot: u64, p: *mut u8, cap: usize) -> u64;
        pub fn vs_fault_begin(mask: u64, budget: u64);
        pub fn vs_fault_end() -> u64;
        pub fn vs_dirty() -> u64;
        pub fn vs_run_others();
        pub fn vs_note(p: *const u8, n: usize);
        pub fn vs_param(name: *const u8, n: usize, default: u64) -> u64;
    }
}

/// one of `0..n`, all explored
pub fn choice(n: usize, tag: &str) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { ffi::vs_choice(n as u32, tag.as_ptr(), tag.len()) as usize }
}
pub fn flag(tag: &str) -> bool {
    choice(2, tag) == 1
}
/// `n` arbitrary bytes
pub fn bytes(n: usize, tag: &str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { ffi::vs_sym(v.as_mut_ptr(), n, tag.as_ptr(), tag.len()) };
    }
    v
}
/// an arbitrary integer in `lo..=hi`, symbolic
pub fn range(lo: u64, hi: u64, tag: &str) -> u64 {
    unsafe { ffi::vs_range(lo, hi, tag.as_ptr(), tag.len()) }
}
pub fn assume(c: bool) {
    unsafe { ffi::vs_assume(c) }
}
/// the property: must hold on every path for every value
pub fn check(c: bool, msg: &str) {
    unsafe { ffi::vs_assert(c, msg.as_ptr(), msg.len()) }
}
/// a witness that this place is reached (vacuity check)
pub fn cover(id: u32) {
    unsafe { ffi::vs_cover(id) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { ffi::vs_concretize(v) }
}
pub fn hash_policy(ns: u8, sym: u64, and: u64, or: u64) {
    unsafe { ffi::vs_hash_policy(ns as u64, sym, and, or) }
}
pub const P_MMAP: u64 = 1;
pub const P_NOBLOCKCHOICE: u64 = 2;
pub const P_ATOMIC: u64 = 4;
pub const P_READS: u64 = 8;
pub const P_READDIR: u64 = 16;
pub fn preempt(budget: u64, flags: u64) {
    unsafe { ffi::vs_preempt(budget, flags) }
}
pub fn crash_begin(recover: extern "C" fn()) {
    unsafe { ffi::vs_crash_begin(recover, 0) }
}
/// from now on remember what was synced, for the two below
pub fn power_prepare() {
    unsafe { ffi::vs_power() }
}
/// the power may fail at any point: everything not synced is lost
pub fn power_begin(recover: extern "C" fn()) {
    unsafe { ffi::vs_crash_begin(recover, 1) }
}
pub fn power_now(recover: extern "C" fn()) {
    unsafe { ffi::vs_crash_now(recover, 1) }
}
pub fn crash_end() {
    unsafe { ffi::vs_crash_end() }
}
pub fn crash_now(recover: extern "C" fn()) {
    unsafe { ffi::vs_crash_now(recover, 0) }
}
pub const F_OPEN: u64 = 1;
pub const F_WRITE: u64 = 2;
pub const F_TRUNC: u64 = 4;
pub const F_SYNC: u64 = 8;
pub const F_RENAME: u64 = 16;
pub const F_UNLINK: u64 = 32;
pub const F_MMAP: u64 = 64;
pub const F_READ: u64 = 128;
pub fn fault_begin(mask: u64, budget: u64) {
    unsafe { ffi::vs_fault_begin(mask, budget) }
}
/// the part of the budget that was not used
pub fn fault_end() -> u64 {
    unsafe { ffi::vs_fault_end() }
}
/// number of linked files with data written but not synced
pub fn dirty_files() -> u64 {
    unsafe { ffi::vs_dirty() }
}
/// let the other threads run until all of them wait
pub fn run_others() {
    unsafe { ffi::vs_run_others() }
}
pub fn note(s: &str) {
    unsafe { ffi::vs_note(s.as_ptr(), s.len()) }
}
/// a bound of this run
pub fn param(name: &str, default: u64) -> usize {
    unsafe { ffi::vs_param(name.as_ptr(), name.len(), default) as usize }
}
/// equality as one boolean (no path split when the lengths are known)
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && {
        let mut d = 0u8;
        for i in 0..a.len() {
            d |= a[i] ^ b[i];
        }
        d == 0
    }
}
pub fn eq_opt(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => eq(a, b),
        _ => false,
    }
}

/// data that survives a crash of the program under test (the harness's own knowledge)
pub fn stash(slot: u64, v: &[u8]) {
    unsafe { ffi::vs_stash(slot, v.as_ptr(), v.len()) }
}
pub fn unstash(slot: u64) -> Option<Vec<u8>> {
    let mut v = vec![0u8; 4096];
    let n = unsafe { ffi::vs_unstash(slot, v.as_mut_ptr(), v.len()) };
    if n == u64::MAX {
        return None;
    }
    v.truncate(n as usize);
    Some(v)
}

pub trait Must<T> {
    /// the call must succeed
    fn must(self, msg: &str) -> T;
}
impl<T, E> Must<T> for Result<T, E> {
    fn must(self, msg: &str) -> T {
        match self {
            Ok(v) => v,
            Err(_) => fail(msg),
        }
    }
}
impl<T> Must<T> for Option<T> {
    fn must(self, msg: &str) -> T {
        match self {
            Some(v) => v,
            None => fail(msg),
        }
    }
}
pub fn fail(msg: &str) -> ! {
    check(false, msg);
    loop {
        // not reached: a failed check ends the path
        std::process::abort();
    }
}
