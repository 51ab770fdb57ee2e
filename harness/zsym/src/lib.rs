//! Interface between harnesses and the symbolic executor. When the harness is
//! executed symbolically these functions are intercepted; in the native build
//! (replay of a counterexample, validation of sampled paths) they are provided
//! by rt.c, which reads the values from a file.
#![allow(clippy::missing_safety_doc)]

mod ffi {
    unsafe extern "C" {
        pub fn zsym_u8() -> u8;
        pub fn zsym_u16() -> u16;
        pub fn zsym_u32() -> u32;
        pub fn zsym_u64() -> u64;
        pub fn zsym_in(p: *const u8, n: usize) -> u8;
        pub fn zsym_range(lo: u8, hi: u8) -> u8;
        pub fn zsym_assume(c: bool);
        pub fn zsym_assert(c: bool, p: *const u8, n: usize);
        pub fn zsym_out(v: u64);
        pub fn zsym_cover(i: u32);
        pub fn zsym_param(i: u32) -> u64;
        pub fn zsym_allow_panic(b: bool);
        pub fn zsym_concretize(v: u64) -> u64;
        pub fn zsym_begin();
    }
}

pub fn u8() -> u8 { unsafe { ffi::zsym_u8() } }
pub fn u16() -> u16 { unsafe { ffi::zsym_u16() } }
pub fn u32() -> u32 { unsafe { ffi::zsym_u32() } }
pub fn u64() -> u64 { unsafe { ffi::zsym_u64() } }
/// a symbolic byte out of an alphabet
pub fn one_of(alphabet: &[u8]) -> u8 { unsafe { ffi::zsym_in(alphabet.as_ptr(), alphabet.len()) } }
/// a symbolic byte in lo..=hi
pub fn range(lo: u8, hi: u8) -> u8 { unsafe { ffi::zsym_range(lo, hi) } }
pub fn assume(c: bool) { unsafe { ffi::zsym_assume(c) } }
pub fn check(c: bool, msg: &'static str) { unsafe { ffi::zsym_assert(c, msg.as_ptr(), msg.len()) } }
/// contributes to the observation compared between the symbolic and the native run
pub fn out(v: u64) { unsafe { ffi::zsym_out(v) } }
pub fn cover(i: u32) { unsafe { ffi::zsym_cover(i) } }
pub fn param(i: u32) -> u64 { unsafe { ffi::zsym_param(i) } }
pub fn allow_panic(b: bool) { unsafe { ffi::zsym_allow_panic(b) } }
/// split into one path per feasible value
pub fn split(v: u64) -> u64 { unsafe { ffi::zsym_concretize(v) } }
pub fn begin() { unsafe { ffi::zsym_begin() } }

pub fn out_str(s: &str) {
    out(s.len() as u64);
    for b in s.bytes() {
        out(b as u64);
    }
}

/// A symbolic string of exactly `n` bytes over an ASCII alphabet.
pub fn ascii(n: usize, alphabet: &[u8]) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(one_of(alphabet));
    }
    // The alphabet is ASCII, so this is valid UTF-8.
    unsafe { String::from_utf8_unchecked(v) }
}

/// Append one symbolic choice out of a list of strings.
pub fn push_choice(out: &mut String, choices: &[&str]) -> usize {
    let i = split(range(0, choices.len() as u8 - 1) as u64) as usize;
    out.push_str(choices[i]);
    i
}

#[macro_export]
macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            match a.as_str() {
                $(stringify!($n) => $n(),)*
                _ => {
                    $(println!(stringify!($n));)*
                }
            }
        }
    };
}
