//! Interface to the symbolic executor (native replay provides the same symbols).
extern "C" {
    fn sx_sym(w: u64, p: *const u8, n: usize) -> u64;
    fn sx_pick(n: u64, p: *const u8, l: usize) -> u64;
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, p: *const u8, n: usize);
    fn sx_fail(p: *const u8, n: usize) -> !;
    fn sx_cover(p: *const u8, n: usize);
    fn sx_conc(v: u64) -> u64;
    fn sx_note(p: *const u8, n: usize, v: u64);
    fn sx_end() -> !;
}
pub fn byte(n: &str) -> u8 { unsafe { sx_sym(8, n.as_ptr(), n.len()) as u8 } }
pub fn u16v(n: &str) -> u16 { unsafe { sx_sym(16, n.as_ptr(), n.len()) as u16 } }
pub fn u32v(n: &str) -> u32 { unsafe { sx_sym(32, n.as_ptr(), n.len()) as u32 } }
pub fn u64v(n: &str) -> u64 { unsafe { sx_sym(64, n.as_ptr(), n.len()) } }
/// any value in 0..n, every one explored
pub fn pick(n: usize, name: &str) -> usize { unsafe { sx_pick(n as u64, name.as_ptr(), name.len()) as usize } }
pub fn flag(name: &str) -> bool { pick(2, name) == 1 }
pub fn assume(c: bool) { unsafe { sx_assume(c) } }
pub fn check(c: bool, id: &str) { unsafe { sx_assert(c, id.as_ptr(), id.len()) } }
pub fn fail(id: &str) -> ! { unsafe { sx_fail(id.as_ptr(), id.len()) } }
pub fn cover(id: &str) { unsafe { sx_cover(id.as_ptr(), id.len()) } }
pub fn conc(v: u64) -> u64 { unsafe { sx_conc(v) } }
pub fn note(id: &str, v: u64) { unsafe { sx_note(id.as_ptr(), id.len(), v) } }
pub fn end() -> ! { unsafe { sx_end() } }

/// A stretch of harness code in which no other thread runs.
pub static mut QUIET: u32 = 0;
pub struct Quiet(());
impl Quiet { #[inline(always)] pub fn new() -> Quiet { quiet(1); Quiet(()) } }
impl Drop for Quiet { #[inline(always)] fn drop(&mut self) { quiet(u32::MAX) } }
// volatile: the compiler does not see that atomic operations in between look at it
#[inline(always)]
fn quiet(n: u32) { std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst); unsafe { let p = &raw mut QUIET; p.write_volatile(p.read_volatile().wrapping_add(n)) } std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst); }
