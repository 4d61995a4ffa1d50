//! Every block carries its layout.  A release that does not match it is counted; what was allocated by a
//! call into the library under test and is still there is counted; released memory is overwritten and,
//! while sessions run, not handed out again, so that a stale pointer is seen for what it is.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

const LIVE: u64 = 0x6c69_7665_626c_6f63;
const DEAD: u64 = 0x6465_6164_626c_6f63;
const HEAD: usize = 32;
const KEEP: usize = 2048;

pub static BAD: AtomicI64 = AtomicI64::new(0);
pub static INSIDE: AtomicI64 = AtomicI64::new(0);
pub static HOLD: AtomicI64 = AtomicI64::new(0);
thread_local! { static IN: Cell<bool> = const { Cell::new(false) } }

pub struct Tracking;
fn pad(align: usize) -> usize {
    if align > HEAD {
        align
    } else {
        HEAD
    }
}
unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pad(l.align());
        let base = System.alloc(Layout::from_size_align_unchecked(l.size() + p, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let u = base.add(p);
        let h = u.sub(HEAD) as *mut u64;
        let inside = IN.try_with(|i| i.get()).unwrap_or(false);
        *h = LIVE;
        *h.add(1) = l.size() as u64;
        *h.add(2) = l.align() as u64;
        *h.add(3) = inside as u64;
        if inside {
            INSIDE.fetch_add(1, SeqCst);
        }
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = u.sub(HEAD) as *mut u64;
        if *h != LIVE {
            BAD.fetch_add(1, SeqCst);
            return;
        }
        let (size, align) = (*h.add(1) as usize, *h.add(2) as usize);
        if size != l.size() || align != l.align() {
            BAD.fetch_add(1, SeqCst);
        }
        if *h.add(3) == 1 {
            INSIDE.fetch_sub(1, SeqCst);
        }
        *h = DEAD;
        if HOLD.load(SeqCst) > 0 && size <= KEEP {
            std::ptr::write_bytes(u, 0xdd, size);
            return;
        }
        let p = pad(align);
        System.dealloc(u.sub(p), Layout::from_size_align_unchecked(size + p, align.max(16)));
    }
}

/// a call into the library under test
pub fn call<T>(f: impl FnOnce() -> T) -> T {
    IN.with(|i| i.set(true));
    let r = f();
    IN.with(|i| i.set(false));
    r
}
