//! Counts the bytes and blocks that are allocated and not yet freed.
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Counting;
static BYTES: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
        BLOCKS.fetch_add(1, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed);
        BLOCKS.fetch_sub(1, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}

/// (bytes, blocks) in use
pub fn in_use() -> (i64, i64) {
    (BYTES.load(Ordering::Relaxed), BLOCKS.load(Ordering::Relaxed))
}
