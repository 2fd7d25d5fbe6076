//! Interface between a harness and whatever runs it: the symbolic executor,
//! or the native replay binary.

extern "C-unwind" {
    fn vp_sym_i64(id: u32, lo: i64, hi: i64) -> i64;
    fn vp_sym_u64(id: u32, lo: u64, hi: u64) -> u64;
    fn vp_param(i: u32) -> i64;
    fn vp_assume(c: bool);
    fn vp_check(c: bool, code: u32);
    fn vp_out(tag: u32, v: i64);
    fn vp_cover(id: u32);
    fn vp_panic_ok(v: u32);
    fn vp_stop();
    fn vp_split(c: bool) -> bool;
}

/// A symbolic signed word in lo..=hi.
pub fn sym(id: u32, lo: isize, hi: isize) -> isize {
    unsafe { vp_sym_i64(id, lo as i64, hi as i64) as isize }
}

/// A symbolic unsigned word in lo..=hi.
pub fn sym_u(id: u32, lo: usize, hi: usize) -> usize {
    unsafe { vp_sym_u64(id, lo as u64, hi as u64) as usize }
}

/// A symbolic signed word over the whole range.
pub fn any(id: u32) -> isize {
    sym(id, isize::MIN, isize::MAX)
}

/// A symbolic word of at most `bits` bits and a sign; 64 means the whole range.
pub fn bits(id: u32, bits: isize) -> isize {
    if bits >= 64 {
        any(id)
    } else {
        sym(id, -(1isize << bits), 1isize << bits)
    }
}

/// A concrete parameter of the job being run.
pub fn param(i: u32) -> isize {
    unsafe { vp_param(i) as isize }
}

pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}

/// The property: must hold on every path.
pub fn check(c: bool, code: u32) {
    unsafe { vp_check(c, code) }
}

/// An observation, compared between the symbolic path and its native replay.
pub fn out(tag: u32, v: isize) {
    unsafe { vp_out(tag, v as i64) }
}

pub fn cover(id: u32) {
    unsafe { vp_cover(id) }
}

/// Whether a panic from here on is an acceptable outcome: 0 no, 1 yes,
/// 2 when it reports a shortage of machine integers.
pub fn panic_ok(v: isize) {
    unsafe { vp_panic_ok(v as u32) }
}

pub fn stop() {
    unsafe { vp_stop() }
}

pub fn split(c: bool) -> bool {
    unsafe { vp_split(c) }
}
