//! Helpers for generated declarations: a skip condition and counters for default functions.
use crate::model::fingerprint;
use crate::zoo::Zoo;
use std::cell::RefCell;

thread_local! {
    static HITS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
}

/// Skips about half of all values.
pub fn skip_half<T: Zoo>(v: &T) -> bool {
    fingerprint(&v.model().events()) & 1 == 0
}

pub fn hit(id: usize) {
    HITS.with(|h| {
        let mut h = h.borrow_mut();
        if h.len() <= id {
            h.resize(id + 1, 0);
        }
        h[id] += 1;
    })
}

pub fn take_hits() -> Vec<u32> {
    HITS.with(|h| std::mem::take(&mut *h.borrow_mut()))
}
