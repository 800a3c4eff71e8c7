//! Symbolic inputs, assumptions and assertions. In the engine these are primitives; in the replay binary they read the model.
extern "C" {
    fn __sym_int(bits: u64, name: *const u8, len: usize) -> u64;
    fn __sym_bytes(p: *mut u8, n: usize, name: *const u8, len: usize);
    fn __sym_assume(b: bool);
    fn __sym_assert(b: bool, msg: *const u8, len: usize);
    fn __sym_fail(msg: *const u8, len: usize) -> !;
    fn __sym_reach(msg: *const u8, len: usize);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_out(p: *const u8, n: usize, name: *const u8, len: usize);
    fn __sym_param(name: *const u8, len: usize, default: u64) -> u64;
    fn __sym_allow_panic(b: bool);
    fn __sym_clock(ns: u64);
    fn __sym_is_engine() -> bool;
    fn __sym_is_sym(v: u64) -> bool;
}
pub fn int(bits: u64, name: &str) -> u64 { unsafe { __sym_int(bits, name.as_ptr(), name.len()) } }
pub fn u8(name: &str) -> u8 { int(8, name) as u8 }
pub fn u16(name: &str) -> u16 { int(16, name) as u16 }
pub fn u32(name: &str) -> u32 { int(32, name) as u32 }
pub fn u64(name: &str) -> u64 { int(64, name) }
pub fn boolean(name: &str) -> bool { int(1, name) & 1 == 1 }
/// symbolic choice of 0..n, decided by forking
pub fn choice(name: &str, n: u64) -> u64 {
    let bits = 64 - (n - 1).leading_zeros() as u64;
    let v = int(bits.max(1), name);
    assume(v < n);
    concretize(v)
}
/// symbolic value of 0..n that stays symbolic
pub fn below(name: &str, n: u64) -> u64 {
    let bits = 64 - (n - 1).leading_zeros() as u64;
    let v = int(bits.max(1), name);
    assume(v < n);
    v
}
pub fn bytes(name: &str, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; if n > 0 { unsafe { __sym_bytes(v.as_mut_ptr(), n, name.as_ptr(), name.len()) } } v }
/// symbolic printable ASCII text of exactly n bytes
pub fn ascii(name: &str, n: usize) -> String { let v = bytes(name, n); for b in &v { assume(*b >= 0x20 && *b < 0x7f); } unsafe { String::from_utf8_unchecked(v) } }
pub fn assume(b: bool) { unsafe { __sym_assume(b) } }
pub fn check(b: bool, msg: &str) { unsafe { __sym_assert(b, msg.as_ptr(), msg.len()) } }
pub fn fail(msg: &str) -> ! { unsafe { __sym_fail(msg.as_ptr(), msg.len()) } }
pub fn reach(msg: &str) { unsafe { __sym_reach(msg.as_ptr(), msg.len()) } }
pub fn concretize(v: u64) -> u64 { unsafe { __sym_concretize(v) } }
pub fn out(name: &str, b: &[u8]) { unsafe { __sym_out(b.as_ptr(), b.len(), name.as_ptr(), name.len()) } }
pub fn param(name: &str, default: u64) -> u64 { unsafe { __sym_param(name.as_ptr(), name.len(), default) } }
pub fn allow_panic(b: bool) { unsafe { __sym_allow_panic(b) } }
pub fn clock(ns: u64) { unsafe { __sym_clock(ns) } }
pub fn is_engine() -> bool { unsafe { __sym_is_engine() } }
pub fn is_sym(v: u64) -> bool { unsafe { __sym_is_sym(v) } }
/// like `check`, but a failure on an input that a listed finding describes is reported as that finding
pub fn check_known(ok: bool, is_known: bool, id: &str, msg: &str) { if is_known { if !ok { reach(&format!("KNOWN {id}")) } } else { check(ok, msg) } }
