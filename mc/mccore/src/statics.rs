//! Puts the instrumented statics of the code under test back to their initial
//! state, so that every execution starts in a fresh process as far as it can
//! tell. Only while [`fresh`] is used, and then on one worker.

use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

static ON: AtomicBool = AtomicBool::new(false);
static SEEN: Mutex<Vec<(usize, Vec<u8>)>> = Mutex::new(vec![]);

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Called by the instrumented primitives before they use an object.
pub fn touch(p: *const u8, size: usize) {
    if !ON.load(Ordering::Relaxed) {
        return;
    }
    let a = p as usize;
    let (lo, hi) = unsafe { (&raw const __data_start as usize, &raw const _end as usize) };
    if a < lo || a >= hi {
        return;
    }
    let mut s = SEEN.lock().unwrap();
    if s.iter().any(|(b, v)| *b <= a && a + size <= *b + v.len()) {
        return;
    }
    // Its first use ever: it still has its initial value.
    s.push((a, unsafe { std::slice::from_raw_parts(p, size) }.to_vec()));
}

/// Starts afresh: what the statics owned is leaked.
pub fn fresh() {
    ON.store(true, Ordering::Relaxed);
    for (a, v) in SEEN.lock().unwrap().iter().rev() {
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), *a as *mut u8, v.len()) };
    }
}
