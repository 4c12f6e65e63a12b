//! concrete stand-in: a failed check ends the demonstration with status 1
use std::cell::RefCell;
thread_local!(pub static IN: RefCell<Vec<usize>> = RefCell::new(vec![]));
pub fn byte(_: &str) -> u8 { 0 }
pub fn u64v(_: &str) -> u64 { 0 }
pub fn pick(_: usize, _: &str) -> usize { 0 }
pub fn flag(_: &str) -> bool { false }
pub fn assume(_: bool) {}
pub fn check(c: bool, id: &str) { if !c { fail(id) } }
pub fn fail(id: &str) -> ! { eprintln!("BROKEN: {}", id); std::process::exit(1) }
pub fn cover(_: &str) {}
pub fn note(_: &str, _: u64) {}
pub fn end() -> ! { std::process::exit(0) }
pub fn u32v(_: &str) -> u32 { 0 }
pub static mut QUIET: u32 = 0;
pub struct Quiet;
impl Quiet { pub fn new() -> Quiet { Quiet } }
