//! The harness owns time: both the symbolic run and the native replay see this clock.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
#[repr(C)]
pub struct Ts { s: i64, ns: i64 }
static NS: AtomicU64 = AtomicU64::new(1_000_000_000_000);
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_c: i32, t: *mut Ts) -> i32 {
    let n = NS.load(Relaxed);
    (*t).s = (n / 1_000_000_000) as i64;
    (*t).ns = (n % 1_000_000_000) as i64;
    0
}
pub fn advance_ms(ms: u64) { NS.store(NS.load(Relaxed) + ms * 1_000_000, Relaxed) }
pub fn now_ns() -> u64 { NS.load(Relaxed) }
pub fn set_ns(n: u64) { NS.store(n, Relaxed) }
