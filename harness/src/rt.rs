//! Interface between a harness and whoever runs it. Under the symbolic
//! executor these calls create solver variables and proof obligations; in the
//! replay binary they read a recorded input vector.
extern "C" {
    fn sym_new(width: u32) -> u64;
    fn sym_pick(n: u32) -> u32;
    fn sym_concrete(v: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: u32);
    fn sym_note(v: u64);
    fn sym_reach(id: u32);
    fn sym_param(i: u32) -> u64;
    fn sym_panic_ok(on: u32);
    fn sym_hash_mode(real: u32);
    fn sym_hash_seed(s: u64);
    fn sym_live() -> u64;
    fn sym_show(p: *const u8, n: usize);
}

/// A fresh unconstrained bit-vector.
pub fn new(width: u32) -> u64 {
    unsafe { sym_new(width) }
}
/// A fresh value below `n`, left symbolic.
pub fn below(width: u32, n: u64) -> u64 {
    let v = new(width);
    assume(v < n);
    v
}
/// A fresh value below `n`, split into its cases at once.
pub fn pick(n: u32) -> u32 {
    unsafe { sym_pick(n) }
}
/// A fresh Unicode scalar value.
pub fn any_char() -> char {
    let v = new(21) as u32;
    assume((v < 0xD800) | ((v > 0xDFFF) & (v < 0x110000)));
    // SAFETY: surrogates and values beyond the last plane are excluded above.
    unsafe { char::from_u32_unchecked(v) }
}
/// A fresh character out of `set`, left symbolic.
pub fn char_of(set: &[char]) -> char {
    let c = any_char();
    let mut ok = false;
    for s in set {
        ok |= c as u32 == *s as u32;
    }
    assume(ok);
    c
}
/// Case split on every value `v` can take.
pub fn concrete(v: u64) -> u64 {
    unsafe { sym_concrete(v) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { sym_assert(c, id) }
}
/// Records an observation that native re-execution must reproduce.
pub fn note(v: u64) {
    unsafe { sym_note(v) }
}
pub fn note_str(s: &str) {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    note(h);
}
/// Marks a situation that has to occur for the check to mean anything.
pub fn reach(id: u32) {
    unsafe { sym_reach(id) }
}
pub fn param(i: u32) -> usize {
    unsafe { sym_param(i) as usize }
}
pub fn panic_ok(on: bool) {
    unsafe { sym_panic_ok(on as u32) }
}
/// `false` replaces SipHash by a constant hash so that symbolic keys stay symbolic.
pub fn real_hash(on: bool) {
    unsafe { sym_hash_mode(on as u32) }
}
pub fn hash_seed(s: u64) {
    unsafe { sym_hash_seed(s) }
}
/// Number of live heap allocations (0 in native replay).
pub fn live() -> u64 {
    unsafe { sym_live() }
}
/// Prints a text that helps to read a replay; ignored by the executor.
pub fn show(s: &str) {
    unsafe { sym_show(s.as_ptr(), s.len()) }
}
