//! Symbolic primitives. In the executor these are intrinsics; natively shim.c implements them.
use std::panic::{catch_unwind, AssertUnwindSafe};

mod ffi {
    extern "C" {
        pub fn sym_u64(name: *const u8, len: usize) -> u64;
        pub fn sym_choose(n: u64, name: *const u8, len: usize) -> u64;
        pub fn sym_bytes(p: *mut u8, n: usize, name: *const u8, len: usize);
        pub fn sym_assume(b: bool);
        pub fn sym_check(b: bool, name: *const u8, len: usize);
        pub fn sym_reach(name: *const u8, len: usize);
        pub fn sym_note(name: *const u8, len: usize);
        pub fn sym_block_ok(b: bool);
        pub fn sym_done();
        pub fn sym_threads(n: u64);
    }
}
/// An arbitrary 64-bit value.
pub fn u64v(name: &str) -> u64 { unsafe { ffi::sym_u64(name.as_ptr(), name.len()) } }
/// An arbitrary value below `n`; every value is explored.
pub fn choose(n: usize, name: &str) -> usize { unsafe { ffi::sym_choose(n as u64, name.as_ptr(), name.len()) as usize } }
pub fn flip(name: &str) -> bool { choose(2, name) == 1 }
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { ffi::sym_bytes(b.as_mut_ptr(), N, name.as_ptr(), name.len()) };
    b
}
pub fn assume(b: bool) { unsafe { ffi::sym_assume(b) } }
/// The property: must hold for every value of the symbolic inputs that reaches this point.
pub fn check(b: bool, label: &str) { unsafe { ffi::sym_check(b, label.as_ptr(), label.len()) } }
/// Witness that this point is reachable (vacuity guard).
pub fn reach(label: &str) { unsafe { ffi::sym_reach(label.as_ptr(), label.len()) } }
pub fn note(s: &str) { unsafe { ffi::sym_note(s.as_ptr(), s.len()) } }
/// From here on a thread that waits forever is the expected outcome.
pub fn block_ok(b: bool) { unsafe { ffi::sym_block_ok(b) } }
/// From here on a thread may be interrupted before any atomic operation, `n` times in all.
pub fn preempt(n: usize) { unsafe { ffi::sym_threads(n as u64) } }
pub fn done() { unsafe { ffi::sym_done() } }
/// Bound: quick tier, thorough tier.
pub const fn b(quick: usize, thorough: usize) -> usize { if cfg!(feature = "thorough") { thorough } else { quick } }

pub fn run(f: impl FnOnce()) {
    std::panic::set_hook(Box::new(|_| {}));
    let r = catch_unwind(AssertUnwindSafe(f));
    if let Err(e) = &r {
        if let Some(s) = e.downcast_ref::<String>() { note(s) }
        if let Some(s) = e.downcast_ref::<&'static str>() { note(s) }
    }
    check(r.is_ok(), "no call into the library panics");
    done();
}
/// Whether this harness is built: those of the property in question, or all.
pub const fn wanted(name: &str) -> bool {
    let only = match option_env!("KH_ONLY") { Some(s) => s.as_bytes(), None => b"" };
    let (n, mut i) = (name.as_bytes(), 0);
    while i < only.len() {
        if i >= n.len() || n[i] != only[i] { return false }
        i += 1;
    }
    true
}
macro_rules! harnesses {
    ($($name:ident $body:block)*) => {
        $(#[no_mangle] #[inline(never)] pub extern "C" fn $name() { if const { $crate::sym::wanted(stringify!($name)) } { $crate::sym::run(|| $body) } })*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name as extern "C" fn())),*];
    };
}
pub(crate) use harnesses;
