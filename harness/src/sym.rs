//! Interface between harnesses and whoever runs them: the symbolic engine
//! intercepts these functions, the native replayer implements them from a
//! recorded list of inputs.

mod raw {
    extern "C-unwind" {
        pub fn sym_i64(lo: i64, hi: i64) -> i64;
        pub fn sym_f64() -> f64;
        pub fn sym_grid(lo: i64, hi: i64, scale: u64) -> f64;
        pub fn sym_byte(set: *const u8, len: usize) -> u8;
        pub fn sym_byte_range(lo: u64, hi: u64) -> u8;
        pub fn sym_bool() -> bool;
        pub fn sym_pick(n: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, line: u64, label: *const u8, len: usize);
        pub fn sym_goal(id: u64);
        pub fn sym_expect(n: u64);
        pub fn sym_obs(v: u64);
        pub fn sym_tier() -> u32;
    }
}

/// any integer in lo..=hi
pub fn int(lo: i64, hi: i64) -> i64 { unsafe { raw::sym_i64(lo, hi) } }
/// any finite double
pub fn float() -> f64 { unsafe { raw::sym_f64() } }
/// k / 2^scale for any integer k in lo..=hi
pub fn grid(lo: i64, hi: i64, scale: u64) -> f64 { unsafe { raw::sym_grid(lo, hi, scale) } }
/// one byte of the given set
pub fn byte(set: &str) -> u8 { unsafe { raw::sym_byte(set.as_ptr(), set.len()) } }
/// one byte in lo..=hi
pub fn byte_range(lo: u8, hi: u8) -> u8 { unsafe { raw::sym_byte_range(lo as u64, hi as u64) } }
pub fn boolean() -> bool { unsafe { raw::sym_bool() } }
/// a case split over 0..n
pub fn pick(n: usize) -> usize { unsafe { raw::sym_pick(n as u64) as usize } }
pub fn assume(c: bool) { unsafe { raw::sym_assume(c) } }
pub fn assert_at(c: bool, line: u32, label: &'static str) { unsafe { raw::sym_assert(c, line as u64, label.as_ptr(), label.len()) } }
/// marks a point that has to be reachable
pub fn goal(id: u64) { unsafe { raw::sym_goal(id) } }
/// goals 1..=n have to be reached by some path, or the harness is vacuous
pub fn expect(n: u64) { unsafe { raw::sym_expect(n) } }
/// a value compared between the symbolic run and the native replay
pub fn obs(v: u64) { unsafe { raw::sym_obs(v) } }
pub fn obs_f(v: f64) { obs(v.to_bits()) }
pub fn obs_s(s: &str) { obs(s.len() as u64) }
pub fn thorough() -> bool { unsafe { raw::sym_tier() == 1 } }

/// a string of 0..=max (or exactly n) bytes of the set, the length being a case split
pub fn string(set: &str, min: usize, max: usize) -> String {
    let n = min + pick(max - min + 1);
    string_n(set, n)
}
pub fn string_n(set: &str, n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(byte(set)); }
    // only ASCII sets are used
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn some<T>(f: impl FnOnce() -> T) -> Option<T> { if pick(2) == 0 { Some(f()) } else { None } }

#[macro_export]
macro_rules! check {
    ($c:expr) => { $crate::sym::assert_at($c, line!(), concat!(module_path!(), ":", line!(), " ", stringify!($c))) };
}
#[macro_export]
macro_rules! harness {
    ($name:ident, $body:block) => { #[no_mangle] pub extern "C-unwind" fn $name() { $body } };
}
