//! Harness-side API of the symbolic executor (see /verif/DESIGN.md).
#![allow(dead_code)]
use std::mem::{size_of, MaybeUninit};

mod ffi {
    extern "C" {
        pub fn sx_sym(p: *mut u8, n: usize);
        pub fn sx_assume(b: bool);
        pub fn sx_check(b: bool, id: u32);
        pub fn sx_fork(v: u64) -> u64;
        pub fn sx_observe(v: u64);
        pub fn sx_cover(id: u32);
        pub fn sx_pick() -> u64;
        pub fn sx_allow_panic(b: bool);
        pub fn sx_real_fmt(b: bool);
        pub fn sx_touch(p: *const u8, n: usize);
    }
}
/// Plain-old-data types every bit pattern of which is valid.
pub trait Pod: Copy + 'static {}
macro_rules! pod { ($($t:ty),*) => { $(impl Pod for $t {})* } }
pod!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, usize, isize);

/// A fresh symbolic value.
#[inline(never)]
pub fn any<T: Pod>() -> T {
    unsafe { let mut t = MaybeUninit::<T>::uninit(); ffi::sx_sym(t.as_mut_ptr() as *mut u8, size_of::<T>()); t.assume_init() }
}
pub fn any_bool() -> bool { (any::<u8>() & 1) != 0 }
pub fn assume(b: bool) { unsafe { ffi::sx_assume(b) } }
/// Assert `b` for every input reaching this point (solver validity query).
pub fn check(b: bool, id: u32) { unsafe { ffi::sx_check(b, id) } }
/// Symbolic choice in 0..n, explored value by value (used for shapes, axes, flags).
pub trait Count { fn n(self) -> u64; }
impl Count for i32 { fn n(self) -> u64 { self as u64 } }
impl Count for u64 { fn n(self) -> u64 { self } }
impl Count for usize { fn n(self) -> u64 { self as u64 } }
pub fn choose<N: Count>(n: N) -> usize { let n = n.n(); let v: u8 = any(); assume((v as u64) < n); unsafe { ffi::sx_fork(v as u64) as usize } }
/// Symbolic choice in lo..=hi.
pub fn choose_in(lo: i64, hi: i64) -> i64 { lo + choose((hi - lo + 1) as u64) as i64 }
/// Symbolic integer constrained to lo..=hi and *kept symbolic*.
pub fn int_in(lo: i64, hi: i64) -> i64 { let v: i64 = any(); assume(v >= lo && v <= hi); v }
pub fn observe(v: u64) { unsafe { ffi::sx_observe(v) } }
pub fn cover(id: u32) { unsafe { ffi::sx_cover(id) } }
pub fn allow_panic(b: bool) { unsafe { ffi::sx_allow_panic(b) } }
pub fn touch(p: *const u8, n: usize) { unsafe { ffi::sx_touch(p, n) } }
pub fn pick() -> u64 { unsafe { ffi::sx_pick() } }
pub fn fork(v: u64) -> u64 { unsafe { ffi::sx_fork(v) } }
/// By default `format!` yields an empty string in the symbolic run (error texts are irrelevant and would fork on every digit).
pub fn real_fmt(b: bool) { unsafe { ffi::sx_real_fmt(b) } }
