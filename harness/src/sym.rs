//! Symbolic-execution intrinsics. In the bitcode build they are left undefined (the engine
//! provides them); in the native build `replay.rs` provides them.
extern "C-unwind" {
    fn __sym_bytes(p: *mut u8, n: usize);
    fn __sym_assume(c: bool);
    fn __sym_assert(c: bool, id: u32);
    fn __sym_reach(id: u32);
    fn __sym_observe(p: *const u8, n: usize);
    fn __sym_expect_panic();
    fn __sym_alloc_limit(n: usize);
    fn __sym_live() -> usize;
    fn __sym_split(v: u64) -> u64;
}

pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { __sym_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    unsafe { __sym_bytes(b.as_mut_ptr(), n) };
    b
}
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes::<2>())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes::<4>())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes::<8>())
}
pub fn bool() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
/// a value in 0..n
pub fn below(n: u8) -> u8 {
    let b = u8();
    assume(b < n);
    b
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { __sym_assert(c, id) }
}
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { __sym_reach(id) }
}
#[inline(always)]
pub fn observe(b: &[u8]) {
    unsafe { __sym_observe(b.as_ptr(), b.len()) }
}
/// the rest of the path must end in a panic (which is then no violation)
#[inline(always)]
pub fn expect_panic() {
    unsafe { __sym_expect_panic() }
}
/// the same value, explored one by one (keeps sizes concrete)
#[inline(always)]
pub fn split(v: usize) -> usize {
    unsafe { __sym_split(v as u64) as usize }
}

/// from here on at most `n` bytes more than now may be allocated at any time (until `alloc_free`)
#[inline(always)]
pub fn alloc_limit(n: usize) {
    unsafe { __sym_alloc_limit(n) }
}
#[inline(always)]
pub fn alloc_free() {
    unsafe { __sym_alloc_limit(usize::MAX) }
}

/// how much is allocated and not freed: objects in the upper 24 bits, bytes below
#[inline(always)]
pub fn live() -> usize {
    unsafe { __sym_live() }
}
