//! The interface between a harness and whoever runs it.
//!
//! In the bitcode handed to the symbolic executor these functions are undefined externals the executor interprets;
//! in the native `replay` binary they read a recorded input and check the assertions for real.
mod raw {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u32);
        pub fn sym_cover(id: u32);
        pub fn sym_observe(v: u64);
        pub fn sym_param(i: usize) -> u64;
        pub fn sym_conc(v: u64) -> u64;
        pub fn sym_choose(n: u64) -> u64;
        pub fn sym_ite(c: bool, a: u64, b: u64) -> u64;
    }
}
/// fills the slice with arbitrary bytes
#[inline(never)]
pub fn bytes(b: &mut [u8]) { if b.is_empty() { return; } unsafe { raw::sym_bytes(b.as_mut_ptr(), b.len()) } }
#[inline(never)]
pub fn vec(n: usize) -> Vec<u8> { let mut v = vec![0; n]; bytes(&mut v); v }
pub fn byte() -> u8 { let mut b = [0u8]; bytes(&mut b); b[0] }
pub fn u16() -> u16 { let mut b = [0u8; 2]; bytes(&mut b); u16::from_be_bytes(b) }
pub fn u32() -> u32 { let mut b = [0u8; 4]; bytes(&mut b); u32::from_be_bytes(b) }
pub fn u64() -> u64 { let mut b = [0u8; 8]; bytes(&mut b); u64::from_be_bytes(b) }
/// restricts the inputs considered; part of the claim
pub fn assume(c: bool) { unsafe { raw::sym_assume(c) } }
/// the property
pub fn check(c: bool, id: u32) { unsafe { raw::sym_assert(c, id) } }
/// reachability witness: every id listed for a harness must be reached by at least one complete path
pub fn cover(id: u32) { unsafe { raw::sym_cover(id) } }
/// value compared between the symbolic and the native execution
pub fn observe(v: u64) { unsafe { raw::sym_observe(v) } }
/// bound/selector given on the command line
pub fn param(i: usize) -> usize { unsafe { raw::sym_param(i) as usize } }
/// forks the execution over all feasible values of v
pub fn conc(v: usize) -> usize { unsafe { raw::sym_conc(v as u64) as usize } }
/// an arbitrary value of 0..n (n <= 256), one execution per value
pub fn choose(n: usize) -> usize { let v = unsafe { raw::sym_choose(n as u64) } as usize; conc(v) }
/// an arbitrary value of 0..n, not enumerated
pub fn below(n: usize) -> usize { unsafe { raw::sym_choose(n as u64) as usize } }
/// if-then-else that does not fork
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { raw::sym_ite(c, a, b) } }

/// printable FITS text (0x20..=0x7E)
#[inline(never)]
pub fn text(n: usize) -> Vec<u8> {
    let v = vec(n);
    for b in &v { assume((*b >= 0x20) & (*b <= 0x7e)); }
    v
}
#[inline(never)]
pub fn digits(n: usize) -> Vec<u8> {
    let v = vec(n);
    for b in &v { assume((*b >= b'0') & (*b <= b'9')); }
    v
}
pub fn observe_bytes(b: &[u8]) { observe(b.len() as u64); for x in b { observe(*x as u64); } }
/// value of a decimal digit
pub fn dv(b: u8) -> i64 { (b as u32).wrapping_sub(b'0' as u32) as i64 }
/// n bytes, arbitrary if there are at most `max` of them; otherwise the first and last max/2 arbitrary and the others fixed, all different from their neighbours
#[inline(never)]
pub fn some(n: usize, max: usize) -> Vec<u8> {
    if n <= max { return vec(n); }
    let mut v: Vec<u8> = (0..n).map(|i| (i.wrapping_mul(131) ^ (i >> 8).wrapping_mul(29) ^ (i >> 16)) as u8).collect();
    bytes(&mut v[..max / 2]); bytes(&mut v[n - max / 2..]); v
}
