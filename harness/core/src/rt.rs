//! The harness side of the symbolic-execution interface. Under the engine these are intrinsics; in the
//! native replay binary they read concrete values from a recorded model.
extern "C-unwind" {
    fn vp_sym() -> u8;
    fn vp_choice(n: u32) -> u32;
    fn vp_assume(c: bool);
    fn vp_fail(code: u32) -> !;
    fn vp_cover(id: u32);
    fn vp_known(id: u32);
    fn vp_out(v: u64);
    fn vp_note(p: *const u8, n: usize);
    fn vp_is_symbolic() -> u32;
    fn vp_concretize(v: u64) -> u64;
}
pub fn sym() -> u8 { unsafe { vp_sym() } }
pub fn choice(n: u32) -> u32 { unsafe { vp_choice(n) } }
pub fn assume(c: bool) { unsafe { vp_assume(c) } }
pub fn fail(code: u32) -> ! { unsafe { vp_fail(code) } }
pub fn cover(id: u32) { unsafe { vp_cover(id) } }
pub fn known(id: u32) { unsafe { vp_known(id) } }
pub fn out(v: u64) { unsafe { vp_out(v) } }
pub fn is_symbolic() -> bool { unsafe { vp_is_symbolic() != 0 } }
pub fn conc(v: u64) -> u64 { unsafe { vp_concretize(v) } }
pub fn note(s: &str) { unsafe { vp_note(s.as_ptr(), s.len()) } }
#[macro_export]
macro_rules! notef {
    ($($a:tt)*) => { if !$crate::rt::is_symbolic() { $crate::rt::note(&format!($($a)*)) } };
}
pub fn check(c: bool, code: u32) {
    if !c {
        fail(code)
    }
}
