//! Bindings for the primitives the symbolic executor implements (and which
//! rt.c implements by reading a replay file when the harness runs natively).
#![allow(dead_code)]

extern "C" {
    fn rsym_sym(p: *mut u8, len: usize, name: *const u8, nlen: usize);
    fn rsym_choose(n: u32, name: *const u8, nlen: usize) -> u32;
    fn rsym_assume(c: bool);
    fn rsym_assert(c: bool, msg: *const u8, mlen: usize);
    fn rsym_fail(msg: *const u8, mlen: usize) -> !;
    fn rsym_reach(tag: *const u8, tlen: usize);
    fn rsym_end() -> !;
    fn rsym_log(p: *const u8, len: usize);
    fn rsym_conc(x: u64) -> u64;
    fn rsym_is_sym(x: u64) -> bool;
    pub fn rsym_thread_new(f: extern "C" fn(*mut u8), arg: *mut u8) -> u32;
    pub fn rsym_switch(tid: u32);
    pub fn rsym_cur() -> u32;
    /// In the executor, the part of the program's startup which notes its arguments; natively they are
    /// noted already.
    pub fn rsym_argv_init(argc: i32, argv: *const *const u8, envp: *const *const u8);
}

pub fn sym_bytes(buf: &mut [u8], name: &str) {
    unsafe { rsym_sym(buf.as_mut_ptr(), buf.len(), name.as_ptr(), name.len()) }
}
pub fn sym_u8(name: &str) -> u8 {
    let mut b = [0u8; 1];
    sym_bytes(&mut b, name);
    b[0]
}
pub fn sym_u16(name: &str) -> u16 {
    let mut b = [0u8; 2];
    sym_bytes(&mut b, name);
    u16::from_le_bytes(b)
}
pub fn sym_u32(name: &str) -> u32 {
    let mut b = [0u8; 4];
    sym_bytes(&mut b, name);
    u32::from_le_bytes(b)
}
pub fn sym_u64(name: &str) -> u64 {
    let mut b = [0u8; 8];
    sym_bytes(&mut b, name);
    u64::from_le_bytes(b)
}
pub fn sym_array<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    sym_bytes(&mut b, name);
    b
}
/// An arbitrary value below n; the executor forks one path per value.
pub fn choose(n: u32, name: &str) -> u32 {
    unsafe { rsym_choose(n, name.as_ptr(), name.len()) }
}
pub fn choose_bool(name: &str) -> bool {
    choose(2, name) == 1
}
pub fn assume(c: bool) {
    unsafe { rsym_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, msg: &str) {
    unsafe { rsym_assert(c, msg.as_ptr(), msg.len()) }
}
#[inline(never)]
pub fn fail(msg: &str) -> ! {
    unsafe { rsym_fail(msg.as_ptr(), msg.len()) }
}
#[inline(never)]
pub fn reach(tag: &str) {
    unsafe { rsym_reach(tag.as_ptr(), tag.len()) }
}
pub fn end() -> ! {
    unsafe { rsym_end() }
}
pub fn log(s: &str) {
    unsafe { rsym_log(s.as_ptr(), s.len()) }
}
pub fn conc(x: u64) -> u64 {
    unsafe { rsym_conc(x) }
}
pub fn is_sym(x: u64) -> bool {
    unsafe { rsym_is_sym(x) }
}
/// A byte string of symbolic content and a length chosen in lo..=hi.
pub fn sym_vec(lo: usize, hi: usize, name: &str) -> Vec<u8> {
    let n = if lo == hi { lo } else { lo + choose((hi - lo + 1) as u32, name) as usize };
    let mut v = vec![0u8; n];
    sym_bytes(&mut v, name);
    v
}
/// Symbolic bytes constrained to ascii so they form a valid &str.
pub fn sym_ascii(lo: usize, hi: usize, name: &str) -> String {
    let v = sym_vec(lo, hi, name);
    let mut ok = true;
    for b in v.iter() {
        ok &= *b < 0x80;
    }
    assume(ok);
    unsafe { String::from_utf8_unchecked(v) }
}
