//! The symbolic interface.  Under the engine these externs are intrinsics; in
//! the native replay binary they are ordinary functions fed from a file.

extern "C" {
    fn vs_int(name: *const u8, len: usize, bits: u32) -> u64;
    fn vs_bytes(name: *const u8, len: usize, dst: *mut u8, n: usize);
    fn vs_assume(c: bool);
    fn vs_check(c: bool, name: *const u8, len: usize);
    fn vs_fail(name: *const u8, len: usize) -> !;
    fn vs_reach(name: *const u8, len: usize);
    fn vs_observe(name: *const u8, len: usize, v: u64);
    fn vs_param(i: u64) -> u64;
    fn vs_allocated() -> u64;
    fn vs_concrete(v: u64) -> u64;
    fn vs_choose(name: *const u8, len: usize, n: u64) -> u64;
}

/// An arbitrary `bits`-wide unsigned integer.
#[inline(always)]
pub fn int(name: &'static str, bits: u32) -> u64 {
    unsafe { vs_int(name.as_ptr(), name.len(), bits) }
}
#[inline(always)]
pub fn any_u64(name: &'static str) -> u64 {
    int(name, 64)
}
#[inline(always)]
pub fn any_u32(name: &'static str) -> u32 {
    int(name, 32) as u32
}
#[inline(always)]
pub fn any_u16(name: &'static str) -> u16 {
    int(name, 16) as u16
}
#[inline(always)]
pub fn any_u8(name: &'static str) -> u8 {
    int(name, 8) as u8
}
#[inline(always)]
pub fn any_bool(name: &'static str) -> bool {
    int(name, 1) == 1
}
/// An arbitrary integer in `0..n`, kept symbolic.
#[inline(always)]
pub fn below(name: &'static str, n: u64) -> u64 {
    let bits = 64 - (n - 1).leading_zeros();
    let v = int(name, if bits == 0 { 1 } else { bits });
    assume(v < n);
    v
}
/// An arbitrary integer in `lo..=hi`, kept symbolic.
#[inline(always)]
pub fn range(name: &'static str, lo: u64, hi: u64) -> u64 {
    lo + below(name, hi - lo + 1)
}
/// Split the exploration over every feasible value of `v`.
#[inline(always)]
pub fn concrete(v: u64) -> u64 {
    unsafe { vs_concrete(v) }
}
/// One of `0..n`, one path per choice.
#[inline(always)]
pub fn choose(name: &'static str, n: u64) -> u64 {
    unsafe { vs_choose(name.as_ptr(), name.len(), n) }
}
#[inline(always)]
pub fn bytes(name: &'static str, dst: &mut [u8]) {
    unsafe { vs_bytes(name.as_ptr(), name.len(), dst.as_mut_ptr(), dst.len()) }
}
#[inline(always)]
pub fn any_vec(name: &'static str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    bytes(name, &mut v);
    v
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vs_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, name: &'static str) {
    unsafe { vs_check(c, name.as_ptr(), name.len()) }
}
#[inline(always)]
pub fn fail(name: &'static str) -> ! {
    unsafe { vs_fail(name.as_ptr(), name.len()) }
}
#[inline(always)]
pub fn reach(name: &'static str) {
    unsafe { vs_reach(name.as_ptr(), name.len()) }
}
#[inline(always)]
pub fn observe(name: &'static str, v: u64) {
    unsafe { vs_observe(name.as_ptr(), name.len(), v) }
}
/// Bytes requested from the allocator since the start.
#[inline(always)]
pub fn allocated() -> u64 {
    unsafe { vs_allocated() }
}
/// A concrete job parameter.
#[inline(always)]
pub fn param(i: u64) -> u64 {
    unsafe { vs_param(i) }
}

/// Declare harness entry points and the native dispatch table.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C" fn $name() $body )*
        pub const TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($name), $name) ),* ];
    };
}
