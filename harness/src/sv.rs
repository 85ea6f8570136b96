//! Interface to the symbolic executor (or to the native replayer).
extern "C" {
    pub fn sv_bytes(p: *mut u8, n: usize);
    pub fn sv_choose(n: u32) -> u32;
    pub fn sv_param(i: u32) -> u64;
    pub fn sv_assume(c: bool);
    pub fn sv_check(c: bool, id: u32);
    pub fn sv_check_eq(a: *const u8, b: *const u8, n: usize, id: u32);
    pub fn sv_reach(id: u32);
    pub fn sv_panic_ok(on: u32);
    pub fn sv_ct(on: u32);
    pub fn sv_rand_limit(n: u64);
    pub fn sv_rand_fixed(from: u64);
    pub fn sv_rand_again();
    pub fn sv_uf_fixed();
    pub fn sv_rand_log(p: *mut u8, n: usize) -> u64;
    pub fn sv_concrete(v: u64) -> u64;
    pub fn sv_heap() -> u64;
    pub fn sv_heap_peak() -> u64;
    pub fn sv_heap_reset_peak();
    pub fn sv_end() -> !;
    pub fn sv_dump(p: *const u8, n: usize);
    pub fn sv_note(v: u64);
    pub fn sv_export(id: u32, p: *const u8, n: usize);
}
pub fn fill(b: &mut [u8]) {
    if !b.is_empty() {
        unsafe { sv_bytes(b.as_mut_ptr(), b.len()) }
    }
}
/// a vector of n arbitrary bytes
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}
pub fn arr<const N: usize>() -> [u8; N] {
    let mut v = [0u8; N];
    fill(&mut v);
    v
}
pub fn u8_() -> u8 {
    arr::<1>()[0]
}
pub fn u16_() -> u16 {
    u16::from_le_bytes(arr())
}
pub fn u32_() -> u32 {
    u32::from_le_bytes(arr())
}
pub fn u64_() -> u64 {
    u64::from_le_bytes(arr())
}
/// any of 0..n, one path each
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { sv_choose(n as u32) as usize }
}
/// lo..=hi, one path each
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choose(hi - lo + 1)
}
/// tier- or shard-dependent bound
pub fn param(i: usize) -> usize {
    unsafe { sv_param(i as u32) as usize }
}
pub fn assume(c: bool) {
    unsafe { sv_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { sv_check(c, id) }
}
pub fn check_eq(a: &[u8], b: &[u8], id: u32) {
    check(a.len() == b.len(), id);
    if !a.is_empty() {
        unsafe { sv_check_eq(a.as_ptr(), b.as_ptr(), a.len(), id) }
    }
}
pub fn reach(id: u32) {
    unsafe { sv_reach(id) }
}
pub fn panic_ok(on: bool) {
    unsafe { sv_panic_ok(on as u32) }
}
pub fn rand_limit(n: u64) {
    unsafe { sv_rand_limit(n) }
}
/// from the n-th byte on, the random source gives fixed bytes
pub fn rand_fixed(n: u64) {
    unsafe { sv_rand_fixed(n) }
}
/// what the random source has given so far
pub fn rand_log() -> Vec<u8> {
    let n = unsafe { sv_rand_log(core::ptr::null_mut(), 0) } as usize;
    let mut v = vec![0; n];
    unsafe { sv_rand_log(v.as_mut_ptr(), n) };
    v
}
pub fn concrete(v: u64) -> u64 {
    unsafe { sv_concrete(v) }
}
pub fn end() -> ! {
    unsafe { sv_end() }
}
pub fn dump(b: &[u8]) {
    unsafe { sv_dump(b.as_ptr(), b.len()) }
}
pub fn note(v: u64) {
    unsafe { sv_note(v) }
}
/// abstracted functions give a value of the executor's choice, not any value
pub fn uf_fixed() {
    unsafe { sv_uf_fixed() }
}
extern "C" {
    fn sv_live() -> u32;
    fn sv_elem(p: *mut u8, be: u32);
    fn sv_affine(p: *mut u8, mode: u32);
    fn sv_curve_point(p: *mut u8);
    fn sv_nonzero(p: *const u8);
    fn sv_group_base(p: *const u8);
    fn sv_group_check(p: *const u8, base: *const u8, n: *const u8, id: u32);
    fn sv_power_base(p: *const u8);
    fn sv_power_check(p: *const u8, base: *const u8, id: u32);
    fn sv_mac_check(tag: *const u8, msg: *const u8, len: usize, r: *const u8, s: *const u8, id: u32);
    fn sv_product_check(r: *const u8, a: *const u8, b: *const u8, id: u32);
}
/// run by the executor (not natively)
pub fn live() -> bool {
    unsafe { sv_live() != 0 }
}
/// any element of the prime field, as 32 bytes
pub fn elem(be: bool) -> [u8; 32] {
    let mut b = [0; 32];
    unsafe { sv_elem(b.as_mut_ptr(), be as u32) }
    b
}
/// two elements, big endian; a native run takes (mode 1) a point of the curve, (mode 2) nearly one
pub fn affine(mode: usize) -> [u8; 64] {
    let mut b = [0; 64];
    unsafe { sv_affine(b.as_mut_ptr(), mode as u32) }
    b
}
/// a point of the curve in projective coordinates (x, y, z, little endian): what the multiples are of
pub fn curve_point() -> [u8; 96] {
    let mut b = [0; 96];
    unsafe { sv_curve_point(b.as_mut_ptr()) }
    b
}
pub fn nonzero(p: &[u8; 32]) {
    unsafe { sv_nonzero(p.as_ptr()) }
}
pub fn group_base(p: &[u8; 96]) {
    unsafe { sv_group_base(p.as_ptr()) }
}
/// p is n times the base
pub fn group_check(p: &[u8; 96], base: &[u8; 96], n: &[u8; 32], id: u32) {
    unsafe { sv_group_check(p.as_ptr(), base.as_ptr(), n.as_ptr(), id) }
}
pub fn power_base(p: &[u8; 32]) {
    unsafe { sv_power_base(p.as_ptr()) }
}
/// r is base^(p-2)
pub fn power_check(r: &[u8; 32], base: &[u8; 32], id: u32) {
    unsafe { sv_power_check(r.as_ptr(), base.as_ptr(), id) }
}
/// r is a * b mod p, and below p
pub fn product_check(r: &[u8; 32], a: &[u8; 32], b: &[u8; 32], id: u32) {
    unsafe { sv_product_check(r.as_ptr(), a.as_ptr(), b.as_ptr(), id) }
}
/// the tag of a message by the definition of the authenticator
pub fn mac_check(tag: &[u8; 16], msg: &[u8], r: &[u8; 16], s: &[u8; 16], id: u32) {
    unsafe { sv_mac_check(tag.as_ptr(), msg.as_ptr(), msg.len(), r.as_ptr(), s.as_ptr(), id) }
}
