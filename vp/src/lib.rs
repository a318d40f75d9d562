//! Interface between harnesses and the symbolic executor. In the native build the same
//! symbols come from `vpnative.c`, which replays one assignment of the symbolic bytes.
mod sys {
    unsafe extern "C" {
        pub fn vp_sym(p: *mut u8, n: usize);
        pub fn vp_choose(n: u32) -> u32;
        pub fn vp_concretize(v: u64) -> u64;
        pub fn vp_assume(c: u8);
        pub fn vp_check(c: u8, id: *const u8, n: usize);
        pub fn vp_cover(id: *const u8, n: usize);
        pub fn vp_out(p: *const u8, n: usize);
        pub fn vp_stop() -> !;
        pub fn vp_param() -> u64;
        pub fn vp_alloc_limit(n: u64);
        pub fn vp_alloc_reset();
        pub fn vp_alloc_total() -> u64;
        pub fn vp_alloc_max() -> u64;
        pub fn vp_advance_time(ns: u64);
        pub fn vp_debug(p: *const u8, n: usize);
    }
}
/// Makes symbolic bytes the byte 0x61 (booleans true) while on.
pub fn fixed(on: bool) {
    FIXED.store(on, std::sync::atomic::Ordering::Relaxed)
}
static FIXED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn sym(b: &mut [u8]) {
    if FIXED.load(std::sync::atomic::Ordering::Relaxed) {
        return b.fill(0x61);
    }
    unsafe { sys::vp_sym(b.as_mut_ptr(), b.len()) }
}
pub fn arr<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    sym(&mut b);
    b
}
pub fn u8() -> u8 {
    arr::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(arr())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(arr())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(arr())
}
pub fn i8() -> i8 {
    u8() as i8
}
pub fn i16() -> i16 {
    u16() as i16
}
pub fn i32() -> i32 {
    u32() as i32
}
pub fn i64() -> i64 {
    u64() as i64
}
/// A symbolic boolean (not forked).
pub fn bool() -> bool {
    if FIXED.load(std::sync::atomic::Ordering::Relaxed) {
        return true;
    }
    let b = u8();
    assume(b < 2);
    b == 1
}
/// One of 0..n, each alternative explored separately.
pub fn choose(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    unsafe { sys::vp_choose(n) }
}
/// Both alternatives, explored separately.
pub fn fork() -> bool {
    choose(2) == 1
}
/// All feasible values of `v`, explored separately.
pub fn concretize(v: u64) -> u64 {
    unsafe { sys::vp_concretize(v) }
}
pub fn assume(c: bool) {
    unsafe { sys::vp_assume(c as u8) }
}
pub fn check(c: bool, id: &str) {
    unsafe { sys::vp_check(c as u8, id.as_ptr(), id.len()) }
}
pub fn cover(id: &str) {
    unsafe { sys::vp_cover(id.as_ptr(), id.len()) }
}
/// Contributes bytes to the trace compared between symbolic and native execution.
pub fn out(b: &[u8]) {
    unsafe { sys::vp_out(b.as_ptr(), b.len()) }
}
pub fn out64(v: u64) {
    out(&v.to_le_bytes())
}
/// Ends this path quietly.
pub fn stop() -> ! {
    unsafe { sys::vp_stop() }
}
pub fn param() -> u64 {
    unsafe { sys::vp_param() }
}
pub fn alloc_limit(n: u64) {
    unsafe { sys::vp_alloc_limit(n) }
}
pub fn alloc_reset() {
    unsafe { sys::vp_alloc_reset() }
}
pub fn alloc_total() -> u64 {
    unsafe { sys::vp_alloc_total() }
}
pub fn alloc_max() -> u64 {
    unsafe { sys::vp_alloc_max() }
}
pub fn advance_time(ns: u64) {
    unsafe { sys::vp_advance_time(ns) }
}
pub fn debug(s: &str) {
    unsafe { sys::vp_debug(s.as_ptr(), s.len()) }
}
/// Symbolic ASCII bytes.
pub fn ascii<const N: usize>() -> [u8; N] {
    let b = arr::<N>();
    for x in b.iter() {
        assume(*x < 128);
    }
    b
}

/// Declares the entry points of a harness crate and the native dispatcher.
#[macro_export]
macro_rules! harnesses {
    ($($m:ident :: $f:ident),* $(,)?) => {
        mod entry {
            $(#[unsafe(no_mangle)] #[inline(never)] pub extern "C" fn $f() { super::$m::$f() })*
        }
        fn main() {
            let n = std::env::args().nth(1).unwrap_or_default();
            match n.as_str() {
                $(stringify!($f) => entry::$f(),)*
                "list" => { $(println!("{}", stringify!($f));)* }
                _ => { eprintln!("no such harness"); std::process::exit(2) }
            }
        }
    };
}
