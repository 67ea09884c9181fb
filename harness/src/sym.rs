//! Access to symbolic values, assumptions and checks.
unsafe extern "C" {
    fn krsym_bits(w: u64, p: *const u8, n: u64) -> u64;
    fn krsym_assume(b: bool);
    fn krsym_check(b: bool, p: *const u8, n: u64);
    fn krsym_reach(p: *const u8, n: u64);
    fn krsym_emit(v: u64);
    fn krsym_concretize(v: u64) -> u64;
}
#[inline(never)]
pub fn bits(w: u64, name: &str) -> u64 {
    unsafe { krsym_bits(w, name.as_ptr(), name.len() as u64) }
}
pub fn byte(name: &str) -> u8 {
    bits(8, name) as u8
}
pub fn flag(name: &str) -> bool {
    bits(1, name) & 1 != 0
}
/// A number below n, each value on its own path.
pub fn pick(n: u64, name: &str) -> u64 {
    let mut w = 1;
    while (1 << w) < n {
        w += 1;
    }
    let v = bits(w, name);
    assume(v < n);
    conc(v)
}
pub fn assume(b: bool) {
    unsafe { krsym_assume(b) }
}
pub fn check(b: bool, label: &str) {
    unsafe { krsym_check(b, label.as_ptr(), label.len() as u64) }
}
pub fn reach(label: &str) {
    unsafe { krsym_reach(label.as_ptr(), label.len() as u64) }
}
pub fn emit(v: u64) {
    unsafe { krsym_emit(v) }
}
pub fn emit_str(s: &str) {
    emit(s.len() as u64);
    for b in s.bytes() {
        emit(b as u64);
    }
}
pub fn conc(v: u64) -> u64 {
    unsafe { krsym_concretize(v) }
}
