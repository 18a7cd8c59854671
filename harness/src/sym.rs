//! Interface to the symbolic executor (natively: rt.c).
#![allow(dead_code)]
mod ffi {
    extern "C" {
        pub fn sym_int(lo: i32, hi: i32) -> i32;
        pub fn sym_byte(lo: u8, hi: u8) -> u8;
        pub fn sym_set(p: *const u8, n: u64) -> u8;
        pub fn sym_f32(lo: i32, hi: i32, frac: i32) -> f32;
        pub fn sym_choose(n: u32) -> u32;
        pub fn sym_bool() -> bool;
        pub fn sym_assume(b: bool);
        pub fn sym_assert(b: bool, p: *const u8, n: u64);
        pub fn sym_reach(p: *const u8, n: u64);
        pub fn sym_native() -> bool;
        pub fn sym_float_ref(e: u32) -> f32;
        pub fn sym_conc_i32(x: i32) -> i32;
        pub fn sym_conc_f32(x: f32) -> f32;
        pub fn sym_note(x: u64);
        pub fn sym_hash_mode(x: u32);
        pub fn sym_log(p: *const u8, n: u64);
        pub fn sym_load(p: *const u8, n: u64);
    }
}
/// Symbolic integer in lo..=hi.
pub fn int(lo: i32, hi: i32) -> i32 { unsafe { ffi::sym_int(lo, hi) } }
pub fn byte(lo: u8, hi: u8) -> u8 { unsafe { ffi::sym_byte(lo, hi) } }
/// Symbolic byte out of a set.
pub fn set(s: &[u8]) -> u8 { unsafe { ffi::sym_set(s.as_ptr(), s.len() as u64) } }
/// Symbolic float n * 2^-frac with lo <= n <= hi.
pub fn f32(lo: i32, hi: i32, frac: i32) -> f32 { unsafe { ffi::sym_f32(lo, hi, frac) } }
/// 0..n, every value on a path of its own.
pub fn choose(n: u32) -> u32 { unsafe { ffi::sym_choose(n) } }
pub fn flag() -> bool { choose(2) == 1 }
pub fn boolean() -> bool { unsafe { ffi::sym_bool() } }
pub fn assume(b: bool) { unsafe { ffi::sym_assume(b) } }
pub fn check(b: bool, m: &str) { unsafe { ffi::sym_assert(b, m.as_ptr(), m.len() as u64) } }
pub fn reach(m: &str) { unsafe { ffi::sym_reach(m.as_ptr(), m.len() as u64) } }
pub fn native() -> bool { unsafe { ffi::sym_native() } }
pub fn float_ref(e: u32) -> f32 { unsafe { ffi::sym_float_ref(e) } }
pub fn conc_f32(x: f32) -> f32 { unsafe { ffi::sym_conc_f32(x) } }
pub fn note(x: u64) { unsafe { ffi::sym_note(x) } }
pub fn hash_mode(x: u32) { unsafe { ffi::sym_hash_mode(x) } }
pub fn log(m: &str) { unsafe { ffi::sym_log(m.as_ptr(), m.len() as u64) } }
pub fn load(p: &str) { unsafe { ffi::sym_load(p.as_ptr(), p.len() as u64) } }
