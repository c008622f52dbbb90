//! Interface to the symbolic executor (or, natively, to the replay driver).
//!
//! Every value obtained from `byte`/`choose` is an input of the harness: the executor makes bytes
//! symbolic and forks on choices; the replay driver takes both from a recorded trace.
#[cfg_attr(feature = "native", allow(dead_code))]
extern "C-unwind" {
    fn sx_u8() -> u8;
    fn sx_choose(n: u32) -> u32;
    fn sx_assume(c: bool);
    fn sx_fail(code: u32) -> !;
    fn sx_note(tag: u32, v: u64);
    fn sx_reach(id: u32);
    fn sx_pick(v: u64) -> u64;
}

/// A symbolic byte.
pub fn byte() -> u8 {
    unsafe { sx_u8() }
}
/// One of `0..n`: a solver variable below `n`, of which every value the path condition allows is
/// explored from here.
pub fn choose(n: usize) -> usize {
    unsafe { sx_pick(sx_choose(n as u32) as u64) as usize }
}
/// The same, with paths forking only where the value matters.
pub fn choose_lazy(n: usize) -> usize {
    unsafe { sx_choose(n as u32) as usize }
}
pub fn flag() -> bool {
    choose(2) == 1
}
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
/// The property is violated.  The code identifies the assertion in the harness source.
#[inline(never)]
pub fn fail(code: u32) -> ! {
    unsafe { sx_fail(code) }
}
/// Assertion: the solver decides whether `c` can be false on this path.
pub fn check(c: bool, code: u32) {
    if !c {
        fail(code)
    }
}
pub fn note(tag: u32, v: u64) {
    unsafe { sx_note(tag, v) }
}
/// Witness: this point of the harness is reachable on a completed path.
pub fn reach(id: u32) {
    unsafe { sx_reach(id) }
}
pub fn pick(v: u64) -> u64 {
    unsafe { sx_pick(v) }
}

/// Note a string's length and a digest of its bytes (validated against the native run).
pub fn note_str(tag: u32, s: &str) {
    note(tag, s.len() as u64);
}

pub fn s(v: &[u8]) -> &str {
    // SAFETY: harness strings are built from characters constrained to be valid UTF-8
    unsafe { std::str::from_utf8_unchecked(v) }
}

/// Thorough tier: larger bounds.
pub const DEEP: bool = cfg!(feature = "deep");
/// `q` in the quick tier, `d` in the thorough one.
pub const fn tier(q: usize, d: usize) -> usize {
    if DEEP {
        d
    } else {
        q
    }
}

/// Print a document when replaying natively with SX_SHOW set.
pub fn show(v: &[u8]) {
    #[cfg(feature = "native")]
    if std::env::var_os("SX_SHOW").is_some() {
        eprintln!("SHOW {:?}", String::from_utf8_lossy(v));
    }
    let _ = v;
}
